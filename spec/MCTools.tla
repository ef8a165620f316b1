------------------------------ MODULE MCTools ------------------------------
(* Studies that grow observation by observation and are looked at in between:
   identities between the operators on everything small, and sequences of
   observations and looks.                                                   *)
EXTENDS ToolsCore, Json
CONSTANTS Results, MaxY, MaxObs, Looks, MaxLen, GENERATE
VARIABLES obs, log
vars == << obs, log >>
Init == obs = [r \in 1..Results |-> << >>] /\ log = << >>
Points == 0..2
Next ==
    /\ Len(log) < MaxLen
    /\ \/ \E r \in 1..Results, p \in Points, y \in 0..MaxY :
            /\ Len(obs[r]) < MaxObs
            /\ obs' = [obs EXCEPT ![r] = Append(@, [p |-> << p >>, y |-> y])]
            /\ log' = IF GENERATE THEN Append(log, [op |-> "obs", a |-> r, b |-> p, c |-> y]) ELSE log
       \/ \E k \in 1..Looks : /\ GENERATE /\ UNCHANGED obs
                              /\ log' = Append(log, [op |-> "look", a |-> k, b |-> 0, c |-> 0])
Spec == Init /\ [][Next]_vars
ConvergesToTheBest ==
    \A r \in 1..Results : obs[r] # << >> =>
        LET m == RunMin(Ys(obs[r])) IN
        /\ \A i \in 1..(Len(m) - 1) : m[i + 1] <= m[i]
        /\ Last(m) = obs[r][FirstArgMin(Ys(obs[r]))].y
        /\ m[1] = obs[r][1].y
RegretGrows ==
    \A r \in 1..Results : obs[r] # << >> =>
        LET g == Regret(Ys(obs[r]), MinSeq(Ys(obs[r]))) IN
        /\ g[1] >= 0 /\ \A i \in 1..(Len(g) - 1) : g[i + 1] >= g[i]
        /\ \A i \in 1..(Len(g) - 1) : (g[i + 1] = g[i]) <=> (obs[r][i + 1].y = MinSeq(Ys(obs[r])))
MeanBetween ==
    (Results = 2 /\ Len(obs[1]) = Len(obs[2]) /\ obs[1] # << >>) =>
        LET a == RunMin(Ys(obs[1]))
            b == RunMin(Ys(obs[2]))
            m == MeanLine(<< a, b >>) IN
        \A i \in DOMAIN a : /\ UNIT * Min2(a[i], b[i]) <= m[i] /\ m[i] <= UNIT * Max2(a[i], b[i])
                            /\ 2 * m[i] = UNIT * (a[i] + b[i])
HistogramCountsAll ==
    \A r \in 1..Results :
        LET codes == Ys(obs[r])
            edges == << 0, 1, 2, MaxY + 3 >>
            n == Counts(codes, edges)
            bins == [k \in 1..3 |-> [n |-> n[k], lo |-> edges[k], hi |-> edges[k + 1]]] IN
        HistFits(codes, bins, 0) /\ HistCovers(bins, 0, MaxY + 3, 0)
\* rows with one column in the first dimension and two in the second
Rows(ob) == [k \in DOMAIN ob |-> << << ob[k].y >>, << ob[k].p[1], (ob[k].p[1] + 1) % 3 >> >>]
Mods == { [id |-> 1, add |-> b, a |-> << << x >>, << y, 7 >> >>] : b \in BOOLEAN, x \in {3, 50}, y \in {-5, 2} }
PartialDependence ==
    \A r \in 1..Results : obs[r] # << >> => \A m \in Mods :
        LET s == Rows(obs[r])
            n == Len(s) IN
        \* a fixed value that all samples have changes nothing
        /\ (\A i \in DOMAIN s : s[i][1] = s[1][1]) =>
              PD1(m, s, 1, s[1][1]) = SumSeq([i \in DOMAIN s |-> Model(m, s[i])])
        \* both dimensions fixed: the samples do not matter
        /\ PD2(m, s, 1, << 1 >>, 2, << 0, 2 >>) = n * Model(m, << << 1 >>, << 0, 2 >> >>)
        /\ PD2(m, s, 1, << 1 >>, 2, << 0, 2 >>) = PD2(m, s, 2, << 0, 2 >>, 1, << 1 >>)
        /\ m.add => PD1(m, s, 1, << 2 >>) - PD1(m, s, 1, << 0 >>) = n * PDdiff(m, 1, << 2 >>, << 0 >>)
ASSUME Grids == /\ CatGrid(<< 0, 1, 2 >>, 3, 5, 1) /\ CatGrid(<< 0, 2 >>, 3, 2, 1) /\ ~CatGrid(<< 0, 1 >>, 3, 2, 1)
         /\ EvenGrid(<< 0, 5, 10 >>, 0, 10, 3, 0) /\ ~EvenGrid(<< 0, 4, 10 >>, 0, 10, 3, 0)
Emit == (GENERATE /\ Len(log) = MaxLen) => PrintT("@G " \o ToJson(log))
=============================================================================
