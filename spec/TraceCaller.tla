---------------------------- MODULE TraceCaller ----------------------------
(* Judges interleaved users of shared objects: first everybody alone ("solo"),
   then all of them together ("act").                                       *)
EXTENDS CallerCore, Json, IOUtils
VARIABLES ti, l, st, cnt
Traces == ndJsonDeserialize(IOEnv.TRACES)

CInit(c) == [w |-> Fresh(1..c.users, c.shared), solo |-> Fresh(1..c.users, c.shared), table |-> << >>]
Known(t, m) == { i \in DOMAIN t.table : t.table[i][1] = m }

CClauses(c, t, e) ==
    IF e.op = "solo" THEN << >>
    ELSE << Cl("S06", "CallerUnchanged", e.shared = c.shared) >>
         \o LET k == Known(t, Moment(t.w, e.u, e.do)) IN
            When(k # {}, << Cl("S06", "SharedLikeOwn", \A i \in k : t.table[i][2] = e.got) >>)
CPost(c, t, e) ==
    IF e.op = "solo"
    THEN [t EXCEPT !.table = Append(@, << Moment(t.solo, e.u, e.do), e.got >>),
                   !.solo = Do(t.solo, e.u, e.do)]
    ELSE [t EXCEPT !.w = Do(t.w, e.u, e.do)]
INSTANCE TraceRunner WITH InitState <- CInit, Post <- CPost, Clauses <- CClauses
Spec == TInit /\ [][TNext]_<<ti, l, st, cnt>>
=============================================================================
