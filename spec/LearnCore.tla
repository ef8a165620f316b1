------------------------------ MODULE LearnCore ------------------------------
(* Surrogate models.

   Life cycle: an estimator has settings and, once fitted, is determined by
   the settings and the training data of its last fit and nothing else.

   Values: predictions of forests, of quantile regressors and of Gaussian
   processes, and derivatives of kernels, in fixed point arithmetic.          *)
EXTENDS Base

\* ------------------------------------------------------------- life cycle
None == << 0, 0 >>
New(sid) == [set |-> sid, fit |-> None]
FitTo(e, d) == [e EXCEPT !.fit = << e.set, d >>]
SetTo(e, sid) == [e EXCEPT !.set = sid]
CloneOf(e) == New(e.set)

\* ----------------------------------------------------------------- forests
\* leaf: the training values (integers) in the leaf of a tree; results in
\* thousandths
Mean1000(leaf) == (1000 * SumSeq(leaf)) \div Len(leaf)
Var1000(leaf) ==
    LET n == Len(leaf)
        s == SumSeq(leaf)
        q == SumSeq([i \in DOMAIN leaf |-> leaf[i] * leaf[i]]) IN
    ((q * n - s * s) * 1000) \div (n * n)
ForestMean(leaves) == SumSeq([t \in DOMAIN leaves |-> Mean1000(leaves[t])]) \div Len(leaves)
\* law of total variance; minv in thousandths
ForestVar(leaves, minv) ==
    LET m == ForestMean(leaves)
        part(t) == Max2(Var1000(leaves[t]), minv)
                   + ((Mean1000(leaves[t]) - m) * (Mean1000(leaves[t]) - m)) \div 1000 IN
    SumSeq([t \in DOMAIN leaves |-> part(t)]) \div Len(leaves)

\* ------------------------------------------------------ Gaussian processes
\* fixed point with four decimals
U == 10000
Mul(a, b) == (a * b) \div U
Dot(as, bs) == SumSeq([i \in DOMAIN as |-> Mul(as[i], bs[i])])
MeanOf(ys) == SumSeq(ys) \div Len(ys)
VarOf(ys) == LET m == MeanOf(ys) IN
             SumSeq([i \in DOMAIN ys |-> Mul(ys[i] - m, ys[i] - m)]) \div Len(ys)
\* The posterior mean is characterised by the residuals at the training
\* points: noise * (mu(x) - y0) = sum_j k(x, xj) (yj - mu(xj)); the posterior
\* covariance by noise * C(x, z) = s2 noise k(x, z) - sum_j k(z, xj) C(x, xj).
MeanGap(noise, mu, y0, kx, ys, mus) ==
    Mul(noise, mu - y0) - Dot(kx, [j \in DOMAIN ys |-> ys[j] - mus[j]])
CovGap(noise, s2, c, k, kz, cx) ==
    Mul(noise, c) - (Mul(Mul(s2, noise), k) - Dot(kz, cx))

\* ------------------------------------------------------------------ kernels
\* a kernel at two points is a term: <<"leaf", v, g>> with value v and
\* partial derivatives g by the first point, <<"+", a, b>>, <<"*", a, b>> or
\* <<"^", a, n>>, with three decimals
M3(a, b) == (a * b) \div 1000
RECURSIVE KV(_), KG(_, _), Power3(_, _)
Power3(v, n) == IF n = 0 THEN 1000 ELSE M3(v, Power3(v, n - 1))
KV(t) == CASE t[1] = "leaf" -> t[2]
           [] t[1] = "+" -> KV(t[2]) + KV(t[3])
           [] t[1] = "*" -> M3(KV(t[2]), KV(t[3]))
           [] t[1] = "^" -> Power3(KV(t[2]), t[3])
KG(t, i) == CASE t[1] = "leaf" -> t[3][i]
              [] t[1] = "+" -> KG(t[2], i) + KG(t[3], i)
              [] t[1] = "*" -> M3(KG(t[2], i), KV(t[3])) + M3(KV(t[2]), KG(t[3], i))
              [] t[1] = "^" -> t[3] * M3(Power3(KV(t[2]), t[3] - 1), KG(t[2], i))
=============================================================================
