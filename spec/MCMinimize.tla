----------------------------- MODULE MCMinimize -----------------------------
(* All runs of the minimize machine for small configurations.               *)
EXTENDS MinimizeCore, Json
CONSTANTS MaxCalls, MaxInit, MaxX0, MaxCb, Vals, GENERATE
VARIABLES c, s, env
vars == << c, s, env >>

Pts(n) == [i \in 1..n |-> -i]
Configs ==
    { [nCalls |-> n, nInit |-> i, x0 |-> Pts(k), y0given |-> g,
       y0 |-> IF g THEN Replicate(1, k) ELSE << >>, nCb |-> b, fits |-> f, q |-> 0] :
        n \in 0..MaxCalls, i \in 0..MaxInit, k \in 0..MaxX0, g \in BOOLEAN,
        b \in 0..MaxCb, f \in {TRUE} }
Init == /\ c \in { k \in Configs : k.y0given => k.x0 # << >> }
        /\ s = Start(c) /\ env = << >>
Step(t, e) == /\ s' = t /\ env' = Append(env, e) /\ UNCHANGED c
Next ==
    \/ s.phase = "record" /\ Step(Provide(c, s), "record")
    \/ /\ CanCall(s)
       /\ \/ \E v \in Vals :
                Step(Call(c, s, IF s.phase = "x0" THEN c.x0[Len(s.xs) + 1] ELSE Len(s.xs) + 1, v),
                     ToString(v))
          \/ Step(Crash(s), "crash")
    \/ CanCallback(s) /\ \E b \in BOOLEAN :
          Step(Callback(c, s, b, s.cb = 1), IF b THEN "stop" ELSE "go")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == s.phase \in {"invalid", "record", "x0", "loop", "cb", "done", "raised"}
WithinBudget == s.calls <= Max2(c.nCalls, 0)
InvalidMeansNoCall == ~Valid(c) => s.calls = 0 /\ s.phase = "invalid"
FullBudget == s.phase = "done" => (s.stop \/ s.calls = c.nCalls)
ProvidedFirst == \A i \in DOMAIN s.xs : i <= Len(c.x0) => s.xs[i] = c.x0[i]
NothingLost == /\ Len(s.xs) = Len(s.ys)
               /\ s.phase \notin {"raised", "invalid"} => Len(s.xs) = s.calls + (IF c.y0given /\ s.phase # "record"
                                                               THEN Len(c.x0) ELSE 0)
\* the first callback saves: between two calls the file is up to date
SavedUpToDate == (c.nCb > 0 /\ (CanCall(s) \/ s.phase = "done") /\ s.rounds > 0)
                 => s.saved = Len(s.xs)
SavedAfterCrash == (s.phase = "raised" /\ c.nCb > 0 /\ s.rounds > 0) => s.saved = Len(s.xs)
NoSurrogateInDesign == s.models > 0 => Len(s.xs) >= c.nInit + Len(c.x0)
\* a stop is final
StopIsFinal == [][(s.phase = "done") => FALSE]_vars
Terminates == <>(s.phase \in {"invalid", "done", "raised"})
Emit == (GENERATE /\ s.phase \in {"done", "raised"}) =>
            PrintT("@G " \o ToJson([c |-> c, env |-> env]))
=============================================================================
