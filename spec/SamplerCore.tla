---------------------------- MODULE SamplerCore ----------------------------
(* Initial designs.  The unit interval is 0..M; what is known of a generated
   coordinate is an interval << lo, hi >> it lies in: a point for a real
   dimension, a cell for integers and categories.

   lhs        one point in each of the n strata of every dimension
   grid       full factorial designs
   halton     radical inverses of consecutive indices in prime bases
   hammersly  halton with a regular grid as last coordinate
   sobol      every aligned block of 2^m points has one point per stratum in
              every dimension, in the first two one per elementary interval *)
EXTENDS Base, SequencesExt
M == 1048576
Tol == 48

\* ------------------------------------------------------------- intervals
Has(iv, u, tol) == iv[1] - tol <= u /\ u <= iv[2] + tol
Touches(iv, a, b, tol) == iv[2] + tol >= a /\ iv[1] - tol <= b
ByLow(col) == SortSeq(col, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
Column(pts, k) == [i \in DOMAIN pts |-> pts[i][k]]

\* one coordinate in each of the strata [(i-1)/n, i/n]
Stratified(col, tol) ==
    LET n == Len(col)
        s == ByLow(col) IN
    \A i \in 1..n : Touches(s[i], ((i - 1) * M) \div n, (i * M) \div n, tol)
Centred(col, tol) ==
    LET n == Len(col)
        s == ByLow(col) IN
    \A i \in 1..n : Has(s[i], ((2 * i - 1) * M) \div (2 * n), tol)
\* the coordinates are s, s + 1/n, s + 2/n, ... for some s in [0, 1/n]
Spaced(col, tol) ==
    LET n == Len(col)
        s == ByLow(col)
        lo == MaxSeq([i \in 1..n |-> s[i][1] - ((i - 1) * M) \div n])
        hi == MinSeq([i \in 1..n |-> s[i][2] - ((i - 1) * M) \div n]) IN
    lo <= hi + 2 * tol /\ lo <= M \div n + tol /\ hi >= -tol
Regular(col, tol) ==                 \* the same with s = 0
    LET n == Len(col)
        s == ByLow(col) IN
    \A i \in 1..n : Has(s[i], ((i - 1) * M) \div n, tol)
\* the order of the points in a dimension
Ranks(col) == [i \in DOMAIN col |-> Cardinality({ j \in DOMAIN col : col[j][1] < col[i][1] })]

\* ----------------------------------------------------------------- grids
Root(n, d) == CHOOSE m \in 1..n : Pow(m, d) <= n /\ (m = n \/ Pow(m + 1, d) > n)
RootUp(n, d) == LET r == Root(n, d) IN IF Pow(r, d) = n THEN r ELSE r + 1
CeilDiv(a, b) == (a + b - 1) \div b
\* levels of the last and of the other dimensions of a grid of order m
Excluded(m) == { ((j * M) \div (m + 1)) : j \in 1..m }
Included(m) == { ((j * M) \div (m - 1)) : j \in 0..(m - 1) }
Levels(b, m, last) == CASE b = "exclude" -> Excluded(m)
                        [] b = "include" -> Included(m)
                        [] b = "only" -> IF last THEN Included(m) ELSE {0, M}
GridSize(b, m, d) == IF b = "only" THEN Pow(2, d - 1) * m ELSE Pow(m, d)
MinOrder(b) == IF b = "exclude" THEN 1 ELSE 2
Down(b, n, d) == IF b = "only" THEN n \div Pow(2, d - 1) ELSE Root(n, d)
Up(b, n, d) == IF b = "only" THEN CeilDiv(n, Pow(2, d - 1)) ELSE RootUp(n, d)
\* order of the grid for n points: the largest which fits, or the smallest
\* which has them all
Order(b, full, n, d) == Max2(MinOrder(b), IF full THEN Down(b, n, d) ELSE Up(b, n, d))
OnLevels(p, b, m, tol) ==
    \A k \in DOMAIN p : \E u \in Levels(b, m, k = Len(p)) : Has(p[k], u, tol)
GridPoints(b, m, d) == [1..d -> Levels(b, m, FALSE) \cup Levels(b, m, TRUE)]
IsGridPoint(g, b, m) == \A k \in DOMAIN g : g[k] \in Levels(b, m, k = Len(g))
At(p, g, tol) == \A k \in DOMAIN p : Has(p[k], g[k], tol)
\* every point of the grid occurs (narrow intervals only)
Covers(pts, b, m, d, tol) ==
    \A g \in GridPoints(b, m, d) :
        IsGridPoint(g, b, m) => \E i \in DOMAIN pts : At(pts[i], g, tol)

\* ------------------------------------------------------------- sequences
\* 0.d0 d1 d2 ... in base b for the digits of k, least significant first
RECURSIVE RadInvR(_, _, _)
RadInvR(k, b, f) == IF k = 0 THEN 0 ELSE ((k % b) * f) \div b + RadInvR(k \div b, b, f \div b)
RadInv(k, b) == RadInvR(k, b, M)
Primes == SetToSortSeq({ p \in 2..320 : \A q \in 2..(p - 1) : q * q > p \/ p % q # 0 }, <)
Bases(primes, d) == IF Len(primes) >= d THEN SubSeq(primes, 1, d) ELSE SubSeq(Primes, 1, d)
\* points skip, skip + 1, ... of the sequence in the given bases
IsHalton(pts, bases, skip, tol) ==
    \A i \in DOMAIN pts, k \in DOMAIN bases : Has(pts[i][k], RadInv(skip + i - 1, bases[k]), tol)
IsHammersly(pts, bases, skip, tol) ==
    /\ IsHalton(pts, bases, skip, tol)
    /\ \A i \in DOMAIN pts : Has(pts[i][Len(bases) + 1], ((i - 1) * M) \div Len(pts), tol)

\* aligned blocks of 2^m consecutive points of a sequence that starts at skip
\* (a power of two or 0): << first, last >>
Blocks(n, skip) ==
    { << k * Pow(2, m) + 1, (k + 1) * Pow(2, m) >> :
        m \in { j \in 0..9 : Pow(2, j) <= n /\ (skip = 0 \/ Pow(2, j) <= skip) }, k \in 0..(n - 1) }
BlocksOf(n, skip) == { b \in Blocks(n, skip) : b[2] <= n }
SobolBalanced(pts, skip, shifted, tol) ==
    \A b \in BlocksOf(Len(pts), skip) :
        \A k \in DOMAIN pts[1] :
            LET col == Column(SubSeq(pts, b[1], b[2]), k) IN
            IF shifted THEN Spaced(col, tol) ELSE Stratified(col, tol)
Cell(iv, m) == Min2(Pow(2, m) - 1, iv[1] \div (M \div Pow(2, m)))
Net2(pts, skip) ==
    \A b \in BlocksOf(Len(pts), skip) :
        LET n == b[2] - b[1] + 1
            q == SubSeq(pts, b[1], b[2]) IN
        \A m \in { j \in 0..9 : Pow(2, j) <= n } :
            Cardinality({ << Cell(q[i][1], m), Cell(q[i][2], CHOOSE j \in 0..9 : Pow(2, m + j) = n) >>
                            : i \in DOMAIN q }) = n

\* ------------------------------------------------------------ generators
(* A generator g only remembers how many points it has made, and only a Sobol
   generator that skips points uses it: its sequence must not repeat.       *)
Refused(g, made, n, d) ==
    \/ g.kind = "sobol" /\ g.skip # 0 /\ made + n > g.skip
    \/ g.kind = "sobol" /\ d > 40
After(g, made, n, d) == IF Refused(g, made, n, d) THEN made ELSE made + n
=============================================================================
