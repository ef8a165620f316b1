------------------------------- MODULE MCHedge -------------------------------
(* Hedging over three acquisitions: each round proposes one candidate per
   arm, a winner is evaluated, and the next surrogate's predictions at the
   proposals are charged to the arms.                                        *)
EXTENDS AcqCore
CONSTANTS Rounds, Preds
VARIABLES gains, past, n, last
vars == << gains, past, n, last >>
Init == gains = Zero /\ past = << >> /\ n = 0 /\ last = 0
Round == /\ n < Rounds
         /\ \E pm \in [1..3 -> Preds] :
              LET G == IF n = 0 THEN {gains}
                       ELSE NextGains({gains}, << {1}, {2}, {3} >>, pm) IN
              /\ gains' \in G
              /\ past' = IF n = 0 THEN past ELSE Append(past, pm)
              /\ n' = n + 1
              /\ last' \in Suggestible(G, << {1}, {2}, {3} >>)
Spec == Init /\ [][Round]_vars
\* the gain of an arm is what its proposals turned out to be worth
GainIsWorth == \A i \in 1..3 : gains[i] = -SumSeq([j \in DOMAIN past |-> past[j][i]])
WinnerIsBest == n > 0 => \A j \in 1..3 : gains[j] <= gains[last]
SomeWinner == Winners(gains) # {}
=============================================================================
