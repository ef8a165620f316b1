------------------------------ MODULE MCSearch ------------------------------
(* All searches with few subspaces, candidates and callbacks.               *)
EXTENDS SearchCore, Json
CONSTANTS MaxIter, MaxSpaces, MaxPts, MaxCb, GENERATE
VARIABLES c, s, env
vars == << c, s, env >>
Configs == { [iters |-> it, npts |-> p, ncb |-> b, splits |-> 2] :
               it \in UNION { [1..k -> 1..MaxIter] : k \in 1..MaxSpaces }, p \in 1..MaxPts, b \in 0..MaxCb }
Init == c \in Configs /\ s = Start(c) /\ env = << >>
Step(t, e) == s' = t /\ env' = Append(env, e) /\ UNCHANGED c
Next ==
    \/ /\ s.phase = "round"
       /\ LET n == BatchSize(c, s)
              k == Len(Rows(s)) IN
          \/ Step(Round(c, s, [i \in 1..n |-> k + i], [i \in 1..n |-> -((k + i) % 3)]), "go")
          \/ Step(Crash(s), "crash")
    \/ s.phase = "cb" /\ \E b \in BOOLEAN : Step(Callback(c, s, b), IF b THEN "stop" ELSE "none")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

WithinBudget == \A k \in DOMAIN c.iters : Len(s.obs[k]) <= c.iters[k]
SpacesInOrder == \A k \in DOMAIN c.iters : k > s.sp => s.obs[k] = << >>
DoneMeansDone == s.phase = "done" =>
    \A k \in DOMAIN c.iters : Len(s.obs[k]) = c.iters[k] \/ k \in s.stopped
NothingTwice == LET r == Rows(s) IN \A i, j \in DOMAIN r : i # j => r[i] # r[j]
Paired == \A k \in DOMAIN c.iters : Len(s.obs[k]) = Len(s.ys[k])
BestIsBest == LET y == Costs(s) IN y # << >> => Rank(y, BestRow(y)) = 1
FullWithoutCallbacks == (s.phase = "done" /\ c.ncb = 0) => Len(Rows(s)) = Total(c)
Terminates == <>(s.phase \in {"done", "raised"})
Emit == (GENERATE /\ s.phase \in {"done", "raised"}) => PrintT("@G " \o ToJson([c |-> c, env |-> env]))
=============================================================================
