---------------------------- MODULE MinimizeCore ----------------------------
(* base_minimize and its wrappers as a machine: evaluate or record the points
   the caller provided, then the loop of suggestion, evaluation, recording;
   after each recording every callback is called once, in order, and any of
   them can stop the search.  The environment decides objective values,
   callbacks' answers and crashes.

   Configuration c
     nCalls  budget          nInit   initial points besides the provided ones
     x0      provided points y0      their values, << >> when not provided
     y0given                 nCb     number of callbacks
     fits    FALSE for random search (no surrogate)
     q       limit for the surrogates kept (0: none)
     hist    what a resumed search is given equals x0/y0                    *)
EXTENDS Base

Valid(c) == /\ c.nInit > 0 \/ Len(c.x0) > 0
            /\ c.nCalls >= c.nInit + (IF c.y0given THEN 0 ELSE Len(c.x0))
            /\ c.y0given => Len(c.y0) = Len(c.x0)

Budget(c) == IF c.y0given THEN c.nCalls ELSE c.nCalls - Len(c.x0)
\* surrogates trained so far, from the number of recordings at each step
Kept(c, n) == IF c.q = 0 THEN n ELSE Min2(n, c.q)

Start(c) ==
    LET s == [phase |-> "loop", calls |-> 0, loops |-> 0, xs |-> << >>, ys |-> << >>,
              cb |-> 0, stop |-> FALSE, models |-> 0, saved |-> 0, rounds |-> 0] IN
    IF ~Valid(c) THEN [s EXCEPT !.phase = "invalid"]
    ELSE IF c.x0 # << >> THEN [s EXCEPT !.phase = IF c.y0given THEN "record" ELSE "x0"]
    ELSE IF c.nCalls = 0 THEN [s EXCEPT !.phase = "done"] ELSE s

\* after observations have been recorded: a surrogate once the initial points
\* are used up, then the callbacks
Recorded(c, s) ==
    LET m == IF c.fits /\ Len(s.xs) >= c.nInit + Len(c.x0) THEN s.models + 1 ELSE s.models
        t == [s EXCEPT !.models = m, !.rounds = @ + 1] IN
    IF c.nCb > 0 THEN [t EXCEPT !.phase = "cb", !.cb = 1, !.stop = FALSE]
    ELSE [t EXCEPT !.phase = IF s.loops >= Budget(c) THEN "done" ELSE "loop"]

\* the caller's values are recorded without any call
Provide(c, s) == Recorded(c, [s EXCEPT !.xs = c.x0, !.ys = c.y0])
Settle(c, s) == IF s.phase = "record" THEN Provide(c, s) ELSE s

CanCall(s) == s.phase \in {"x0", "loop"}
Call(c, s, x, y) ==
    LET t == [s EXCEPT !.calls = @ + 1, !.xs = Append(@, x), !.ys = Append(@, y)] IN
    IF s.phase = "x0"
    THEN IF Len(t.xs) = Len(c.x0) THEN Recorded(c, t) ELSE t
    ELSE Recorded(c, [t EXCEPT !.loops = @ + 1])
Crash(s) == [s EXCEPT !.calls = @ + 1, !.phase = "raised"]

CanCallback(s) == s.phase = "cb"
Callback(c, s, stops, saves) ==
    LET t == [s EXCEPT !.stop = @ \/ stops,
                       !.saved = IF saves THEN Len(s.xs) ELSE @] IN
    IF s.cb < c.nCb THEN [t EXCEPT !.cb = @ + 1]
    ELSE [t EXCEPT !.cb = 0,
                   !.phase = IF t.stop \/ s.loops >= Budget(c) THEN "done" ELSE "loop"]

\* ------------------------------------------------- stopping criteria
Best(ys) == MinSeq(ys)
RECURSIVE Insert(_, _), SortSeqR(_)
Insert(v, s) == IF s = << >> THEN << v >>
                ELSE IF v <= Head(s) THEN << v >> \o s ELSE << Head(s) >> \o Insert(v, Tail(s))
SortSeqR(s) == IF s = << >> THEN << >> ELSE Insert(Head(s), SortSeqR(Tail(s)))
DeltaY(ys, delta, n) ==
    IF Len(ys) < n THEN FALSE ELSE LET z == SortSeqR(ys) IN z[n] - z[1] < delta
Threshold(ys, t) == Best(ys) <= t
Hollow(ys, n, t) ==
    /\ Len(ys) > n
    /\ Best(Take(ys, Len(ys) - n)) - Best(ys) <= Abs(t)
Deadline(times, total) == total - SumSeq(times) <= MaxSeq(times)
=============================================================================
