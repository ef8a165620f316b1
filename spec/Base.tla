-------------------------------- MODULE Base --------------------------------
(* Helpers shared by every specification module.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* A named clause: property id, clause name, verdict.
Cl(p, c, ok) == [p |-> p, c |-> c, ok |-> ok]
When(cond, clauses) == IF cond THEN clauses ELSE << >>

Abs(n) == IF n < 0 THEN -n ELSE n
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol

Range(s) == { s[i] : i \in DOMAIN s }
\* the first m elements / everything but the first m
Take(s, m) == SubSeq(s, 1, Min2(m, Len(s)))
Drop(s, m) == SubSeq(s, m + 1, Len(s))
Last(s) == s[Len(s)]
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Replicate(v, m) == [i \in 1..m |-> v]

RECURSIVE SumSeq(_), CatAll(_), MinSeqR(_, _), MaxSeqR(_, _)
SumSeq(s) == IF s = << >> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
CatAll(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o CatAll(Tail(ss))
MinSeqR(s, acc) == IF s = << >> THEN acc ELSE MinSeqR(Tail(s), Min2(acc, Head(s)))
MaxSeqR(s, acc) == IF s = << >> THEN acc ELSE MaxSeqR(Tail(s), Max2(acc, Head(s)))
MinSeq(s) == MinSeqR(Tail(s), Head(s))     \* of a non-empty sequence
MaxSeq(s) == MaxSeqR(Tail(s), Head(s))
\* index of the first smallest element of a non-empty sequence
FirstArgMin(s) == CHOOSE i \in DOMAIN s :
                     /\ \A j \in DOMAIN s : s[i] <= s[j]
                     /\ \A j \in 1..(i-1) : s[i] < s[j]
Sorted(s) == \A i \in 1..(Len(s)-1) : s[i] <= s[i+1]
IsPermutation(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A v \in Range(a) \cup Range(b) :
          Cardinality({i \in DOMAIN a : a[i] = v}) =
          Cardinality({i \in DOMAIN b : b[i] = v})
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
=============================================================================
