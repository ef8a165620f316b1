------------------------------ MODULE MCLearn ------------------------------
(* Life cycles of several estimators, and the identities between the numeric
   operators for all small values.                                          *)
EXTENDS LearnCore, Json
CONSTANTS Ests, Sets, Datas, MaxLen, MaxY, GENERATE
VARIABLES case, est, log
vars == << case, est, log >>
Leaves == { << a, b >> : a \in 0..MaxY, b \in 0..MaxY }
Cases == {[t |-> "life"]}
         \cup (IF GENERATE THEN {} ELSE
               { [t |-> "forest", a |-> a, b |-> b] : a \in Leaves, b \in Leaves }
               \cup { [t |-> "gp", k |-> k, s |-> s, y |-> y] :
                        k \in {5000, 10000, 20000}, s \in {1000, 5000, 10000}, y \in 0..MaxY }
               \cup { [t |-> "poly", x |-> x, y |-> y, n |-> n] :
                        x \in 0..MaxY, y \in 0..MaxY, n \in 1..3 })
Init == /\ case \in Cases
        /\ est = [i \in 1..Ests |-> New(1)]
        /\ log = << >>
Do(op) == log' = Append(log, op)
Next ==
    /\ case.t = "life" /\ Len(log) < MaxLen /\ UNCHANGED case
    /\ \E i \in 1..Ests :
          \/ \E d \in 1..Datas : est' = [est EXCEPT ![i] = FitTo(@, d)] /\ Do([op |-> "fit", e |-> i, v |-> d])
          \/ \E s \in 1..Sets : /\ s # est[i].set
                                /\ est' = [est EXCEPT ![i] = SetTo(@, s)] /\ Do([op |-> "set", e |-> i, v |-> s])
          \/ \E j \in 1..Ests : /\ i # j /\ est' = [est EXCEPT ![j] = CloneOf(est[i])]
                                /\ Do([op |-> "clone", e |-> i, v |-> j])
          \/ \E j \in 1..Ests : /\ i # j /\ est[i].fit # None /\ est' = [est EXCEPT ![j] = est[i]]
                                /\ Do([op |-> "pickle", e |-> i, v |-> j])
Spec == Init /\ [][Next]_vars

\* the last operation on an estimator that decides what it predicts
Source(i) == { k \in DOMAIN log :
    \/ log[k].op = "fit" /\ log[k].e = i
    \/ log[k].op \in {"clone", "pickle"} /\ log[k].v = i }
LastFitDecides ==
    \A i \in 1..Ests :
        LET src == Source(i)
            m == CHOOSE k \in src : \A j \in src : j <= k IN
        src # {} =>
            /\ log[m].op = "fit" => est[i].fit[2] = log[m].v
            /\ log[m].op = "clone" => est[i].fit = None
UnfittedIsUntouched == \A i \in 1..Ests : Source(i) = {} => est[i].fit = None
\* with leaves of the same size the law of total variance is the variance of
\* everything in the leaves
TotalVariance ==
    case.t = "forest" =>
        /\ Near(ForestVar(<< case.a, case.b >>, 0), Var1000(case.a \o case.b), 3)
        /\ Near(ForestMean(<< case.a, case.b >>), Mean1000(case.a \o case.b), 1)
        /\ ForestVar(<< case.a, case.b >>, 400) >= ForestVar(<< case.a, case.b >>, 0)
\* one training point: mu = k y / (k + s), C = k - k k / (k + s)
OnePoint ==
    case.t = "gp" =>
        LET k == case.k
            s == case.s
            y == 1000 * case.y
            mu == (k * y) \div (k + s)
            c == k - (k * (k \div 10)) \div ((k + s) \div 10) IN
        /\ Near(MeanGap(s, mu, 0, << k >>, << y >>, << mu >>), 0, 3)
        /\ Near(CovGap(s, U, c, k, << k >>, << c >>), 0, 5)
\* derivative of (x * y) ^ n and of its factors
Polynomials ==
    case.t = "poly" =>
        LET dot == << "leaf", case.x * case.y * 10, << case.y * 100 >> >>
            pow == << "^", dot, case.n >>
            prod == IF case.n = 1 THEN dot ELSE IF case.n = 2 THEN << "*", dot, dot >>
                    ELSE << "*", << "*", dot, dot >>, dot >> IN
        Near(KV(pow), KV(prod), 2) /\ Near(KG(pow, 1), KG(prod, 1), 5)
Emit == (GENERATE /\ Len(log) = MaxLen) => PrintT("@G " \o ToJson(log))
=============================================================================
