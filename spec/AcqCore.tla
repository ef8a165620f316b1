------------------------------- MODULE AcqCore -------------------------------
(* Acquisition values for a surrogate with mean mu, deviation s in {0,1,2,4},
   incumbent y, margin xi and exploration k; means, incumbents, margins and k
   in quarters (suffix 4), results in millionths.  All are costs: the next
   point is one with the smallest value.

   Hedging: every acquisition proposes its optimal candidate; the gain of an
   acquisition is minus the sum of what the surrogates trained later predict
   at its proposals, and the proposal of the one with the largest gain wins. *)
EXTENDS Base, NormalTable

Inf == 999                               \* k4 for pure exploration
Improve4(mu4, y4, xi4) == y4 - xi4 - mu4
Z16(imp4, s) == (imp4 * 4) \div s         \* exact for s in {1, 2, 4}

EI(mu4, s, y4, xi4) ==
    IF s = 0 THEN 0
    ELSE LET i == Improve4(mu4, y4, xi4) IN (i * Cdf(Z16(i, s))) \div 4 + s * Pdf(Z16(i, s))
PI(mu4, s, y4, xi4) ==
    IF s = 0 THEN 0 ELSE Cdf(Z16(Improve4(mu4, y4, xi4), s))
LCB(mu4, s, k4) == IF k4 = Inf THEN -1000000 * s ELSE 250000 * mu4 - 250000 * k4 * s

\* expected inverse time of a log-normal time with log-mean mt and deviation st
InvTime(mt, st) == ExpHalf(st * st - 2 * mt)                 \* thousandths

\* what is minimised; p = [f, xi4, k4]
Cost(p, y4, mu4, s) ==
    CASE p.f = "EI" -> -EI(mu4, s, y4, p.xi4)
      [] p.f = "PI" -> -PI(mu4, s, y4, p.xi4)
      [] p.f = "LCB" -> LCB(mu4, s, p.k4)
CostPs(p, y4, mu4, s, mt, st) ==
    LET v == IF p.f = "EIps" THEN EI(mu4, s, y4, p.xi4) ELSE PI(mu4, s, y4, p.xi4) IN
    -((v \div 1000) * InvTime(mt, st))

\* gradients, for mu' = a/4 and s' = b/4, in millionths
EIGrad(mu4, s, y4, xi4, a, b) ==
    IF s = 0 THEN 0
    ELSE LET z == Z16(Improve4(mu4, y4, xi4), s) IN (b * Pdf(z) - a * Cdf(z)) \div 4
PIGrad(mu4, s, y4, xi4, a, b) ==
    IF s = 0 THEN 0
    ELSE LET z == Z16(Improve4(mu4, y4, xi4), s) IN (Pdf(z) * (-16 * a - z * b)) \div (64 * s)
LCBGrad(k4, a, b) == IF k4 = Inf THEN -250000 * b ELSE 250000 * a - 62500 * k4 * b
\* per second: the time model has mt' = at/4, st' = bt/4; result in thousandths
\* of ... of the negated value
PsGrad(v, g, mt, st, at, bt) ==
    LET e == InvTime(mt, st)
        h == (v \div 1000) * (st * bt - at) IN        \* 4 * v * log-derivative
    -(((g \div 1000) * e) + (h * e) \div 4)

\* --------------------------------------------------------- best candidates
\* rows: << mu4, s >> or << mu4, s, mt, st >>
RowCost(p, y4, r) == IF Len(r) = 4 THEN CostPs(p, y4, r[1], r[2], r[3], r[4])
                     ELSE Cost(p, y4, r[1], r[2])
\* optimal up to the rounding of the table
Slack(p, v) == IF p.f \in {"EIps", "PIps"} THEN 60000 + Abs(v) \div 400 ELSE 60
BestRows(p, y4, rows) ==
    LET c == [i \in DOMAIN rows |-> RowCost(p, y4, rows[i])]
        m == MinSeq(c) IN
    { i \in DOMAIN rows : c[i] <= m + Slack(p, m) }

\* ---------------------------------------------------------------- hedging
Arms == << "EI", "LCB", "PI" >>
Zero == << 0, 0, 0 >>
\* all gains possible after the proposals (one of best[i] for every arm) got
\* the predictions pm by the new surrogate
NextGains(G, best, pm) ==
    { << g[1] - pm[i], g[2] - pm[j], g[3] - pm[k] >> :
        g \in G, i \in best[1], j \in best[2], k \in best[3] }
Winners(g) == { i \in 1..3 : \A j \in 1..3 : g[j] <= g[i] }
Suggestible(G, best) == UNION { best[i] : i \in UNION { Winners(g) : g \in G } }
=============================================================================
