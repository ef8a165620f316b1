------------------------------ MODULE SpaceCore ------------------------------
(* Dimensions and their warped (transformed) representation.

   A dimension d is a record
     k   "real" | "int" | "cat"
     pr  "uniform" | "log"         base  of the logarithm
     lo, hi                        see below
     tr  "identity" | "normalize" | "onehot" | "label" | "string"
     n   number of categories

   Bounds: uniform real lo/4 .. hi/4; log real base^(lo/2) .. base^(hi/2);
   uniform int lo .. hi; log int base^lo .. base^hi.
   Values are named by their position j: reals lie on a grid of 8 steps
   (geometric under a log prior), log ints on the powers of the base.
   Transformed values are in units of 10^-6.                               *)
EXTENDS Base

U == 1000000
Steps(d) == CASE d.k = "real" -> 8
              [] d.k = "int" -> d.hi - d.lo
              [] OTHER -> d.n - 1
Positions(d) == 0..Steps(d)

\* ---------------------------------------------------------------- layout
Size(d) == IF d.k = "cat" /\ d.tr = "onehot" /\ d.n > 2 THEN d.n ELSE 1
Numeric(d) == ~(d.k = "cat" /\ d.tr \in {"identity", "string"})
\* label-like encodings: which category gets which number is not fixed
Labelled(d) == d.k = "cat" /\ d.tr \in {"label", "normalize"}

\* the warped value at position j
Warp(d, j) ==
    CASE d.k = "cat" /\ d.tr = "onehot" ->
            IF d.n = 1 THEN << 0 >>
            ELSE IF d.n = 2 THEN << j * U >>
            ELSE [i \in 1..d.n |-> IF i = j + 1 THEN U ELSE 0]
      [] d.k = "cat" /\ d.tr = "label" -> << j * U >>
      [] d.k = "cat" /\ d.tr = "normalize" ->
            << IF d.n = 1 THEN 0 ELSE (j * U) \div (d.n - 1) >>
      [] d.tr = "normalize" -> << (j * U) \div Steps(d) >>
      [] d.k = "real" /\ d.pr = "uniform" ->
            << (U \div 32) * (8 * d.lo + j * (d.hi - d.lo)) >>
      [] d.k = "real" -> << (U \div 16) * (8 * d.lo + j * (d.hi - d.lo)) >>
      [] OTHER -> << (d.lo + j) * U >>

\* bounds of the warped columns
WarpBounds(d) ==
    CASE d.k = "cat" /\ d.tr = "label" -> << << 0, (d.n - 1) * U >> >>
      [] d.k = "cat" -> [i \in 1..Size(d) |-> << 0, U >>]
      [] d.tr = "normalize" -> << << 0, U >> >>
      [] OTHER -> << << Warp(d, 0)[1], Warp(d, Steps(d))[1] >> >>

\* the position a warped row stands for: the nearest one
Unwarp(d, w) ==
    IF d.k = "cat" /\ d.tr = "onehot" /\ d.n > 2
    THEN CHOOSE j \in Positions(d) : \A i \in Positions(d) : w[j + 1] >= w[i + 1]
    ELSE CHOOSE j \in Positions(d) :
            \A i \in Positions(d) : Abs(Warp(d, j)[1] - w[1]) <= Abs(Warp(d, i)[1] - w[1])

SameRow(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], tol)
RowInBounds(w, b, tol) ==
    Len(w) = Len(b) /\ \A i \in DOMAIN w : w[i] >= b[i][1] - tol /\ w[i] <= b[i][2] + tol
Columns(ds) == CatAll(Map(ds, LAMBDA d : Replicate(0, Size(d))))

\* ------------------------------------------------- dimension descriptions
\* A description is a sequence of tokens [ty |-> int|float|str|bool|other, v].
\* What it means: a kind, or an error.
IsNum(t) == t.ty \in {"int", "float"}
Prior(t) == t.ty = "str" /\ t.v \in {"uniform", "log-uniform"}
LogPrior(t) == t.ty = "str" /\ t.v = "log-uniform"
BothInt(s) == s[1].ty = "int" /\ s[2].ty = "int"
BothNum(s) == IsNum(s[1]) /\ IsNum(s[2])
Cat == [k |-> "cat", pr |-> "none", base |-> 0]
Num(s, pr, base) == [k |-> IF BothInt(s) THEN "int" ELSE "real", pr |-> pr, base |-> base]
Err == [k |-> "error", pr |-> "none", base |-> 0]
\* descriptions whose meaning the documentation leaves open
Open(s) ==
    \/ Len(s) = 2 /\ ~BothNum(s) /\ \A i \in 1..2 : s[i].ty \notin {"str", "bool"}
    \/ Len(s) >= 3 /\ Prior(s[3]) /\ ~BothNum(s)
    \/ Len(s) >= 4 /\ Prior(s[3]) /\ ~(LogPrior(s[3]) /\ s[4].ty = "int" /\ Len(s) = 4)
Ordered(s) == s[1].v < s[2].v
Infer(s) ==
    CASE Len(s) = 0 -> Err
      [] Len(s) = 1 -> Cat
      [] Len(s) = 2 /\ BothNum(s) -> IF Ordered(s) THEN Num(s, "uniform", 10) ELSE Err
      [] Len(s) = 3 /\ BothNum(s) /\ Prior(s[3]) ->
            IF Ordered(s) THEN Num(s, s[3].v, 10) ELSE Err
      [] Len(s) = 4 /\ BothNum(s) /\ LogPrior(s[3]) /\ s[4].ty = "int" ->
            IF Ordered(s) THEN Num(s, s[3].v, s[4].v) ELSE Err
      [] OTHER -> Cat

\* -------------------------------------------- membership, distance, equality
\* points of a space as sequences of (position or a foreign value -1)
DimDistance(d, a, b) == IF d.k = "cat" THEN IF a = b THEN 0 ELSE 1 ELSE Abs(a - b)
\* weights of the categories, if they are not alike
Weights(d) == IF "w" \in DOMAIN d THEN d.w ELSE << >>
SameDim(d, e) ==
    /\ d.k = e.k
    /\ IF d.k = "cat" THEN d.n = e.n /\ d.fam = e.fam /\ Weights(d) = Weights(e)
       ELSE d.lo = e.lo /\ d.hi = e.hi /\ d.pr = e.pr
            /\ (d.k = "real" => d.tr = e.tr)
=============================================================================
