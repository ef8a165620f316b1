---------------------------- MODULE OptimizerCore ----------------------------
(* The ask/tell optimizer: initial design, history, surrogate bookkeeping,
   batches by constant liar, copies and refreshes.

   Configuration c: ninit   size of the initial design
                    gen     generated design (point ids), << >> = random
                    hasModel FALSE for the purely random optimizer
                    q       how many surrogates are kept, 0 = all
                    ps      observations carry an evaluation time
                    stub    the surrogate records what it was trained on
                    cont    random points are continuous, never repeat

   Points are interned to natural numbers, values are integers in units of
   1/1000, times are logarithms in the same unit.

   The same operators define the design that TLC explores (MCOptimizer) and
   judge the executions recorded from the code (TraceOptimizer).            *)
EXTENDS Base

NoBatch == [n |-> 0, s |-> "", pts |-> << >>]

\* One optimizer.  hist: everything told, models: for every surrogate kept
\* the number of observations it was trained on, sugg: the suggestion if it
\* has been asked for (0 = not yet seen), seen: an earlier random suggestion.
NewOpt == [hist |-> << >>, models |-> << >>, sugg |-> 0,
           batch |-> NoBatch, rnd |-> 0]

Xs(h) == Map(h, LAMBDA o : o.x)
Ys(h) == Map(h, LAMBDA o : o.y)
Ts(h) == Map(h, LAMBDA o : o.t)

Phase(c, o) == IF Len(o.hist) < c.ninit THEN "design"
               ELSE IF c.hasModel THEN "model" ELSE "random"
PhaseAt(c, k) == IF k < c.ninit THEN "design"
                 ELSE IF c.hasModel THEN "model" ELSE "random"

\* a surrogate can be asked only if one was ever fitted
AskFails(c, o) == Phase(c, o) = "model" /\ o.models = << >>
\* the copy which proposes a batch is refitted on the whole history
CopyModels(c, o) == IF Phase(c, o) = "model" /\ o.hist # << >>
                    THEN << Len(o.hist) >> ELSE << >>
BatchFails(c, o) == Phase(c, o) = "model" /\ CopyModels(c, o) = << >>

Queue(c, ms) == IF c.q > 0 /\ Len(ms) > c.q THEN Drop(ms, Len(ms) - c.q) ELSE ms

Fits(c, h, fit) == fit /\ c.hasModel /\ Len(h) >= c.ninit

\* ---------------------------------------------------------------- posts
AskPost(c, o, x) == CASE Phase(c, o) = "model" -> [o EXCEPT !.sugg = x]
                      [] OTHER -> [o EXCEPT !.rnd = x]

CacheHit(o, n, s) == o.batch.n = n /\ o.batch.s = s
AskNPost(o, n, s, xs) == [o EXCEPT !.batch = [n |-> n, s |-> s, pts |-> xs]]

TellPost(c, o, obs, fit) ==
    LET h == o.hist \o obs
        f == Fits(c, h, fit)
    IN [o EXCEPT !.hist = h,
                 !.batch = NoBatch,
                 !.models = IF f THEN Queue(c, Append(@, Len(h))) ELSE @,
                 !.sugg = IF f THEN 0 ELSE @]

CopyPost(c, o) == [NewOpt EXCEPT !.hist = o.hist, !.models = CopyModels(c, o)]

RefreshPost(c, o) == [o EXCEPT !.batch = NoBatch, !.sugg = 0]

RECURSIVE RunPost(_, _, _)
RunPost(c, o, obs) ==
    IF obs = << >> THEN o
    ELSE RunPost(c, TellPost(c, o, << Head(obs) >>, TRUE), Tail(obs))

\* ------------------------------------------------------- constant liar
\* lies are in the unit of the observations; means are compared exactly by
\* cross multiplication, up to the unit in which they were recorded
LieOK(s, vals, empty, lie) ==
    IF vals = << >> THEN Near(lie, empty, 1)
    ELSE CASE s = "cl_min" -> lie = MinSeq(vals)
           [] s = "cl_max" -> lie = MaxSeq(vals)
           [] OTHER -> Near(lie * Len(vals), SumSeq(vals), Len(vals))

TimeLieEmpty == 709783     \* log of the largest double

\* A training set seen during a batch request: the whole history, then the
\* first k proposals with a lie each.
LiarFit(c, o, s, pts, f) ==
    LET m == Len(o.hist) k == Len(f.xs) - m IN
    /\ k >= 0 /\ k <= Len(pts)
    /\ f.xs = Xs(o.hist) \o Take(pts, k)
    /\ Len(f.ys) = Len(f.xs)
    /\ Take(f.ys, m) = Ys(o.hist)
    /\ \A i \in (m+1)..(m+k) : LieOK(s, Ys(o.hist), 0, f.ys[i])
LiarFitTimes(c, o, s, f) ==
    LET m == Len(o.hist) IN
    /\ Len(f.ts) = Len(f.xs)
    /\ \A i \in 1..Min2(m, Len(f.ts)) : Near(f.ts[i], o.hist[i].t, 1)
    /\ \A i \in (m+1)..Len(f.ts) : LieOK(s, Ts(o.hist), TimeLieEmpty, f.ts[i])

\* ------------------------------------------------------------- results
BestIndex(h) == FirstArgMin(Ys(h))

ResultOK(h, r) ==
    /\ r.xs = Xs(h)
    /\ r.ys = Ys(h)
BestOK(h, r) ==
    /\ h # << >>
    /\ r.fun = h[BestIndex(h)].y
    /\ r.x = h[BestIndex(h)].x
=============================================================================
