----------------------------- MODULE MCSampler -----------------------------
(* Histories of calls of generators, and the facts about sequences and grids
   the trace specification relies on, for all small sizes.                  *)
EXTENDS SamplerCore, Json
CONSTANTS MaxN, MaxLen, GENERATE
VARIABLES case, made, log
vars == << case, made, log >>

Kinds == {"lhs", "grid", "halton", "hammersly", "sobol", "random"}
Gens == { [kind |-> k, skip |-> s] : k \in Kinds, s \in {0, 4} }
Cases == { [t |-> "seq", b |-> b, n |-> n, d |-> 1] : b \in {2, 3, 5, 7}, n \in 1..MaxN }
     \cup { [t |-> "grid", b |-> b, n |-> n, d |-> d] :
               b \in {"exclude", "include", "only"}, n \in 1..MaxN, d \in 1..4 }
     \cup { [t |-> "calls", b |-> 2, n |-> 0, d |-> 1] }
Init == case \in Cases /\ made = << 0, 0 >> /\ log = << >>
Call(g, i, n, d, seed) ==
    /\ made' = [made EXCEPT ![i] = After(g, @, n, d)]
    /\ log' = Append(log, << i, n, d, seed >>)
Next == /\ case.t = "calls" /\ Len(log) < MaxLen /\ UNCHANGED case
        /\ \E i \in 1..2, n \in 1..3, d \in 1..2, seed \in 1..2 :
              Call([kind |-> "sobol", skip |-> 4], i, n, d, seed)
Spec == Init /\ [][Next]_vars

Point(k, b) == << RadInv(k, b), RadInv(k, b) >>
\* consecutive indices in an aligned block of b^m fall into different strata
SequencesStratify ==
    case.t = "seq" =>
        LET b == case.b
            n == case.n IN
        \A m \in 0..6 : (Pow(b, m) <= MaxN /\ n % Pow(b, m) = 0) =>
            Regular([i \in 1..Pow(b, m) |-> Point(n - 1 + i, b)], Tol + M \div Pow(b, m))
            /\ Stratified([i \in 1..Pow(b, m) |-> Point(n - 1 + i, b)], Tol)
\* distinct indices have distinct values
SequencesDistinct == case.t = "seq" => \A k \in 0..(case.n - 1) :
                        RadInv(k, case.b) # RadInv(case.n, case.b)
GridsFit ==
    case.t = "grid" =>
        LET up == Order(case.b, FALSE, case.n, case.d)
            down == Order(case.b, TRUE, case.n, case.d) IN
        /\ GridSize(case.b, up, case.d) >= case.n
        /\ down > MinOrder(case.b) => GridSize(case.b, down, case.d) <= case.n
        /\ GridSize(case.b, down + 1, case.d) > case.n
        /\ down <= up
NeverRepeats == \A i \in 1..2 : made[i] <= 4
Emit == (GENERATE /\ Len(log) = MaxLen) => PrintT("@G " \o ToJson(log))
=============================================================================
