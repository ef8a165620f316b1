----------------------------- MODULE TraceRunner -----------------------------
(* Steps through a batch of recorded traces.  A trace is a configuration and
   a sequence of events; the instantiating module supplies the specification
   as three operators: the initial specification state of a configuration,
   the state after an event, and the sequence of named clauses the event has
   to satisfy.  The verdict is total: a failing clause is reported by name
   and the rest of the trace is still checked.                              *)
EXTENDS Base, Json

CONSTANTS Traces, InitState(_), Post(_, _, _), Clauses(_, _, _)
VARIABLES ti,    \* which trace
          l,     \* events consumed
          st,    \* specification state
          cnt    \* clause name -> how often it was evaluated

Key(c) == c.p \o "." \o c.c
Bump(f, cl) ==
    [k \in (DOMAIN f) \cup { Key(cl[i]) : i \in DOMAIN cl } |->
        (IF k \in DOMAIN f THEN f[k] ELSE 0)
        + Cardinality({ i \in DOMAIN cl : Key(cl[i]) = k })]

TInit == /\ ti \in 1..Len(Traces)
         /\ l = 0
         /\ st = InitState(Traces[ti].cfg)
         /\ cnt = << >>

Report(cl, e) ==
    LET bad == { i \in DOMAIN cl : ~cl[i].ok } IN
    IF bad = {} THEN TRUE
    ELSE PrintT("@V " \o ToJson(
        [t |-> ti, l |-> l + 1, op |-> e.op,
         bad |-> { Key(cl[i]) : i \in bad }]))

TNext == /\ l < Len(Traces[ti].ev)
         /\ LET c == Traces[ti].cfg
                e == Traces[ti].ev[l + 1]
                cl == Clauses(c, st, e)
                cn == Bump(cnt, cl)
            IN /\ Report(cl, e)
               /\ st' = Post(c, st, e)
               /\ cnt' = cn
               /\ IF l + 1 < Len(Traces[ti].ev) THEN TRUE
                  ELSE PrintT("@D " \o ToJson([t |-> ti, n |-> l + 1, c |-> cn]))
         /\ l' = l + 1
         /\ UNCHANGED ti
=============================================================================
