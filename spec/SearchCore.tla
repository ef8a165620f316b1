----------------------------- MODULE SearchCore -----------------------------
(* A cross-validated search over one or more subspaces, one after the other.
   A round asks the optimizer of the current subspace for a batch, evaluates
   every candidate of it on every split, tells the optimizer the negated mean
   scores and calls the callbacks; any of them ends the search of the current
   subspace.

   Configuration c
     iters   candidates to evaluate in each subspace
     npts    batch size        ncb     number of callbacks
     splits  number of splits                                               *)
EXTENDS Base

Total(c) == SumSeq(c.iters)
Start(c) == [sp |-> 1, left |-> c.iters[1], obs |-> [k \in DOMAIN c.iters |-> << >>],
             ys |-> [k \in DOMAIN c.iters |-> << >>], cb |-> 0, stop |-> FALSE,
             phase |-> "round", stopped |-> {}]
BatchSize(c, s) == Min2(c.npts, s.left)
Advance(c, s) ==
    LET t == IF s.stop THEN [s EXCEPT !.stopped = @ \cup {s.sp}] ELSE s IN
    IF ~t.stop /\ t.left > 0 THEN [t EXCEPT !.phase = "round"]
    ELSE IF t.sp = Len(c.iters) THEN [t EXCEPT !.phase = "done"]
    ELSE [t EXCEPT !.sp = @ + 1, !.left = c.iters[t.sp + 1], !.stop = FALSE, !.phase = "round"]
\* the candidates ids with the values ys told to the optimizer
Round(c, s, ids, ys) ==
    LET t == [s EXCEPT !.obs[s.sp] = @ \o ids, !.ys[s.sp] = @ \o ys, !.left = @ - Len(ids)] IN
    IF c.ncb = 0 THEN Advance(c, t) ELSE [t EXCEPT !.phase = "cb", !.cb = 1]
Callback(c, s, stops) ==
    LET t == [s EXCEPT !.stop = @ \/ stops] IN
    IF s.cb < c.ncb THEN [t EXCEPT !.cb = @ + 1] ELSE Advance(c, [t EXCEPT !.cb = 0])
Crash(s) == [s EXCEPT !.phase = "raised"]

Rows(s) == CatAll(s.obs)
Costs(s) == CatAll(s.ys)
\* mean of the scores of the splits (the drivers use scores with whole means)
Mean(scores) == SumSeq(scores) \div Len(scores)
BestRow(costs) == FirstArgMin(costs)
\* ranks with ties sharing the smallest
Rank(costs, i) == 1 + Cardinality({ j \in DOMAIN costs : costs[j] < costs[i] })
=============================================================================
