------------------------------ MODULE ToolsCore ------------------------------
(* What the reporting tools show, as functions of what was observed and of
   the model.  An observation is [p |-> codes of the coordinates, y |-> value];
   a row of the transformed space is a sequence, by dimension, of the codes of
   its columns.                                                               *)
EXTENDS Base

Ys(obs) == [i \in DOMAIN obs |-> obs[i].y]
RunMin(ys) == [i \in DOMAIN ys |-> MinSeq(Take(ys, i))]
Regret(ys, best) == [i \in DOMAIN ys |-> SumSeq(Take(ys, i)) - i * best]
\* lines are drawn in units of 1/UNIT, so that means of up to eight are exact
UNIT == 840
Scaled(line) == [i \in DOMAIN line |-> UNIT * line[i]]
MeanLine(lines) == [i \in DOMAIN lines[1] |->
    (UNIT * SumSeq([k \in DOMAIN lines |-> lines[k][i]])) \div Len(lines)]
\* one argument of a plot of traces: a result, or a list of them
TraceLines(lines, islist) ==
    IF islist THEN [k \in DOMAIN lines |-> Scaled(lines[k])] \o << MeanLine(lines) >>
    ELSE << Scaled(lines[1]) >>

\* histogram of codes: edges known up to tol
InBin(codes, lo, hi, tol) == Cardinality({ i \in DOMAIN codes : codes[i] >= lo - tol /\ codes[i] <= hi + tol })
InsideBin(codes, lo, hi, tol) == Cardinality({ i \in DOMAIN codes : codes[i] > lo + tol /\ codes[i] < hi - tol })
HistFits(codes, bins, tol) ==
    /\ SumSeq([k \in DOMAIN bins |-> bins[k].n]) = Len(codes)
    /\ \A k \in DOMAIN bins : /\ InsideBin(codes, bins[k].lo, bins[k].hi, tol) <= bins[k].n
                              /\ bins[k].n <= InBin(codes, bins[k].lo, bins[k].hi, tol)
    /\ \A k \in 1..(Len(bins) - 1) : Near(bins[k].hi, bins[k + 1].lo, tol)
HistCovers(bins, low, high, tol) == Near(bins[1].lo, low, tol) /\ Near(Last(bins).hi, high, tol)
EvenBins(bins, tol) == \A k \in DOMAIN bins : Near(bins[k].hi - bins[k].lo, bins[1].hi - bins[1].lo, tol)
\* exact histogram, half open bins but for the last
Counts(codes, edges) == [k \in 1..(Len(edges) - 1) |->
    Cardinality({ i \in DOMAIN codes : codes[i] >= edges[k] /\
                  (codes[i] < edges[k + 1] \/ (k = Len(edges) - 1 /\ codes[i] = edges[k + 1])) })]

\* A model: integer coefficients by dimension and column.  Additive models
\* are sums over the columns, others mix them.
Part(a, cols) == SumSeq([c \in DOMAIN cols |-> (a[c] * cols[c]) % 97])
Mixed(a, row) == LET s == SumSeq([d \in DOMAIN row |-> Part(a[d], row[d])]) % 97 IN (s * s) % 101
Model(m, row) == 1000 * m.id + (IF m.add THEN SumSeq([d \in DOMAIN row |-> Part(m.a[d], row[d])])
                                ELSE Mixed(m.a, row))
\* partial dependence: the sum over the samples with the dimension fixed
Fixed1(row, i, g) == [row EXCEPT ![i] = g]
PD1(m, samples, i, g) == SumSeq([s \in DOMAIN samples |-> Model(m, Fixed1(samples[s], i, g))])
PD2(m, samples, i, gi, j, gj) ==
    SumSeq([s \in DOMAIN samples |-> Model(m, Fixed1(Fixed1(samples[s], j, gj), i, gi))])
\* of an additive model the differences do not depend on the samples
PDdiff(m, i, g, h) == Part(m.a[i], g) - Part(m.a[i], h)

\* points evenly spaced from low to high, and categories in order
EvenGrid(xs, low, high, n, tol) ==
    /\ Len(xs) = n
    /\ \A k \in 1..n : Near((n - 1) * (xs[k] - low), (k - 1) * (high - low), tol * n)
CatGrid(xs, ncat, n, u) ==
    /\ Len(xs) = Min2(n, ncat)
    /\ \A k \in DOMAIN xs : xs[k] = u * (IF n >= ncat THEN k - 1 ELSE ((k - 1) * (ncat - 1)) \div (n - 1))

\* names
Label(i, name) == IF name = "" THEN "$X_{" \o ToString(i - 1) \o "}$" ELSE name
DefaultName(i, name) == IF name = "" THEN "X_" \o ToString(i - 1) ELSE name
=============================================================================
