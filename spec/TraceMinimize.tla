--------------------------- MODULE TraceMinimize ---------------------------
(* Judges recorded runs of the minimisers against the machine.              *)
EXTENDS MinimizeCore, Json, IOUtils
VARIABLES ti, l, st, cnt
Traces == ndJsonDeserialize(IOEnv.TRACES)

\* specification state: the configuration of the current leg, the machine,
\* what has been saved, whether there was a crash
MInit(c) == [c |-> c, s |-> Settle(c, Start(c)), saved |-> << << >>, << >> >>, crashed |-> FALSE]

IsBad(c) == c.bad # ""
Done(s) == s.phase = "done"

CallClauses(c, s, e) ==
    IF IsBad(c) \/ s.phase = "invalid"
    THEN << Cl("M03", "RejectedBeforeEvaluation", FALSE) >>
    ELSE << Cl("M02", "EveryCallback", s.phase # "cb"),
            Cl("M02", "StopsWhenAsked", ~(Done(s) /\ s.stop)),
            Cl("M01", "CallAllowed", CanCall(s) \/ s.phase = "cb" \/ (Done(s) /\ s.stop)) >>
         \o When(s.phase = "x0", << Cl("M01", "ProvidedFirst", e.x = c.x0[Len(s.xs) + 1]) >>)

Same(e, s) == e.xs = s.xs /\ e.ys = s.ys
SurrogateCount(c, s, e) == e.nm = Kept(c, s.models)

\* the answer a stopping criterion has to give
Criterion(k, s, e) ==
    CASE k.k = "deltax" -> e.dist >= 0 /\ e.dist < k.a
      [] k.k = "deltay" -> DeltaY(s.ys, k.a, k.b)
      [] k.k = "hollow" -> Hollow(s.ys, k.b, k.a)
      [] k.k = "threshold" -> Threshold(s.ys, k.a)
      [] k.k = "deadline" -> Deadline(e.times, k.a)
      [] OTHER -> FALSE
CritName(k) == CASE k.k = "deltax" -> "DeltaX" [] k.k = "deltay" -> "DeltaY"
                 [] k.k = "hollow" -> "Hollow" [] k.k = "threshold" -> "Threshold"
                 [] k.k = "deadline" -> "Deadline" [] OTHER -> "None"
CbClauses(c, s, v, e) ==
    << Cl("M02", "CallbackInOrder", CanCallback(s) /\ s.cb = e.i),
       Cl("M02", "CallbackSeesHistory", Same(e, s)) >>
    \o When(CanCallback(s),
       << Cl("M01", "SurrogateAfterInitial", SurrogateCount(c, s, e)) >>
       \o When(e.i <= Len(c.cbs) /\ CritName(c.cbs[e.i]) # "None",
          << Cl("C01", CritName(c.cbs[e.i]), e.ret = Criterion(c.cbs[e.i], s, e)) >>)
       \o When(e.i <= Len(c.cbs) /\ c.cbs[e.i].k = "timer",
          << Cl("C01", "Timer", Len(e.times) = s.rounds
                                        /\ e.timer = e.times) >>)
       \o When(c.saver > 0,
          LET now == e.i >= c.saver
              w == IF now THEN << s.xs, s.ys >> ELSE v.saved IN
          << Cl("D02", "CheckpointIsCurrent",
                e.file.ok /\ e.file.xs = w[1] /\ e.file.ys = w[2]) >>
          \o When(e.i <= Len(c.cbs) /\ c.cbs[e.i].k = "save",
               << Cl("D02", "ObjectiveAsAsked", e.file.func = c.cbs[e.i].stores) >>)))

EndClauses(c, s, v, e) ==
    IF IsBad(c) \/ s.phase = "invalid"
    THEN << Cl("M03", "RejectedBeforeEvaluation", FALSE) >>
    ELSE << Cl("M02", "EveryCallback", s.phase # "cb"),
            Cl("M01", "BudgetUsed", Done(s) \/ s.phase = "cb"),
            Cl("M01", "BudgetKept", s.calls <= c.nCalls),
            Cl("M02", "ErrorsReachTheCaller", s.phase # "raised"),
            Cl("S06", "ArgumentsUnchanged", e.same) >>
         \o When(s.xs # << >>,
         << Cl("M01", "ResultHistory", Same(e, s)),
            Cl("M01", "SurrogateAfterInitial", SurrogateCount(c, s, e)),
            Cl("M01", "BestOfResult", ~e.none /\ e.fun = MinSeq(s.ys)
                   /\ e.x = s.xs[FirstArgMin(s.ys)]) >>)
         \o When(c.saver > 0 /\ s.rounds > 0,
            << Cl("D02", "CheckpointIsCurrent", e.file.ok /\ e.file.xs = s.xs
                                               /\ e.file.ys = s.ys) >>)

RaiseClauses(c, s, v, e) ==
    IF s.phase = "raised"
    THEN << Cl("M02", "ErrorsReachTheCaller", e.mine),
            Cl("S06", "ArgumentsUnchanged", e.same) >>
         \o When(c.saver > 0, << Cl("D02", "CheckpointSurvives",
                e.file.ok /\ e.file.xs = v.saved[1] /\ e.file.ys = v.saved[2]) >>)
    ELSE IF IsBad(c) \/ s.phase = "invalid"
    THEN << Cl("M03", "RejectedBeforeEvaluation", s.calls = 0 /\ ~e.mine),
            Cl("S06", "ArgumentsUnchanged", e.same) >>
    ELSE << Cl("M01", "RunsWithoutError", FALSE) >>

MClauses(cc, t, e) ==
    LET c == t.c
        s == t.s IN
    CASE e.op = "call" -> CallClauses(c, s, e)
      [] e.op = "crash" -> CallClauses([c EXCEPT !.x0 = << >>], [s EXCEPT !.phase =
                              IF @ = "x0" THEN "loop" ELSE @], e)
      [] e.op = "cb" -> CbClauses(c, s, t, e)
      [] e.op = "end" -> EndClauses(c, s, t, e)
      [] e.op = "raise" -> RaiseClauses(c, s, t, e)
      [] e.op = "resume" -> << Cl("D02", "ResumeHasEverything",
                e.c.x0 = t.saved[1] /\ e.c.y0 = t.saved[2] /\ e.file.ok
                /\ e.file.xs = t.saved[1] /\ e.file.ys = t.saved[2]
                /\ (\* after a crash everything recorded before it is there
                    c.saver > 0 => t.saved = << s.xs, s.ys >>
                       \/ (s.phase = "raised" /\ s.rounds = 0))) >>
      [] e.op = "replay" -> << Cl("M04", "SameAsAskTell", e.err = "" /\ e.xs = e.want) >>

MPost(cc, t, e) ==
    LET c == t.c
        s == t.s IN
    CASE e.op = "call" ->
            IF IsBad(c) \/ s.phase = "invalid" THEN [t EXCEPT !.s.calls = @ + 1]
            ELSE IF s.phase \in {"cb", "done"}
            THEN [t EXCEPT !.s = Call(c, [s EXCEPT !.phase = "loop"], e.x, e.y)]
            ELSE [t EXCEPT !.s = Call(c, s, e.x, e.y)]
      [] e.op = "crash" -> [t EXCEPT !.s = Crash(s)]
      [] e.op = "cb" ->
            IF CanCallback(s) /\ e.i = s.cb
            THEN [t EXCEPT !.s = Callback(c, s, e.ret, c.saver = e.i),
                           !.saved = IF c.saver = e.i THEN << s.xs, s.ys >> ELSE @]
            ELSE t
      [] e.op = "resume" -> [t EXCEPT !.c = e.c, !.s = Settle(e.c, Start(e.c))]
      [] OTHER -> t
INSTANCE TraceRunner WITH InitState <- MInit, Post <- MPost, Clauses <- MClauses
Spec == TInit /\ [][TNext]_<<ti, l, st, cnt>>
=============================================================================
