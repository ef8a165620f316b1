------------------------------ MODULE MCSpace ------------------------------
(* Every dimension of a small universe with every value: the layout claims
   are checked for each, and each dimension is printed for replay.          *)
EXTENDS SpaceCore, Json
CONSTANTS GENERATE
VARIABLES d, j

Nums(k) ==
    { [k |-> k, pr |-> p, base |-> b, lo |-> r[1], hi |-> r[2], tr |-> t, n |-> 0, fam |-> 0] :
        p \in {"uniform"}, b \in {10},
        r \in { <<0,1>>, <<-3,5>>, <<1,4>>, <<-20,-12>>, <<7,27>>, <<-1,100>> },
        t \in {"identity", "normalize"} }
Logs(k) ==
    { [k |-> k, pr |-> "log", base |-> b, lo |-> r[1], hi |-> r[2], tr |-> t, n |-> 0, fam |-> 0] :
        b \in {2, 10, 3},
        r \in IF k = "int" THEN { <<0,1>>, <<0,3>>, <<1,5>> }
              ELSE { <<-6,2>>, <<0,1>>, <<-3,4>>, <<1,8>> },
        t \in {"identity", "normalize"} }
AnyCats ==
    { [k |-> "cat", pr |-> "none", base |-> 0, lo |-> 0, hi |-> 0, tr |-> t, n |-> n, fam |-> f] :
        t \in {"identity", "normalize", "onehot", "label", "string"}, n \in 1..5, f \in 1..9 }
\* categories that are spelled alike (9) cannot be told apart as strings
Cats == { c \in AnyCats : c.fam = 9 => c.tr # "string" }
Dims == Nums("real") \cup Nums("int") \cup Logs("real") \cup Logs("int") \cup Cats

Init == d \in Dims /\ j = -1
Next == j < Steps(d) /\ j' = j + 1 /\ UNCHANGED d
Spec == Init /\ [][Next]_<<d, j>>

RoundTrip == (j >= 0 /\ Numeric(d)) => Unwarp(d, Warp(d, j)) = j
InBounds == (j >= 0 /\ Numeric(d)) => RowInBounds(Warp(d, j), WarpBounds(d), 1)
Layout == (j >= 0 /\ Numeric(d)) => /\ Len(Warp(d, j)) = Size(d)
                                    /\ Len(WarpBounds(d)) = Size(d)
Monotone == (j >= 1 /\ d.k # "cat") => Warp(d, j - 1)[1] < Warp(d, j)[1]
Metric == j >= 0 => /\ DimDistance(d, j, j) = 0
                    /\ \A i \in Positions(d) : DimDistance(d, i, j) = DimDistance(d, j, i)
                                               /\ (i # j => DimDistance(d, i, j) > 0)
Emit == (GENERATE /\ j = -1) => PrintT("@G " \o ToJson(d))
=============================================================================
