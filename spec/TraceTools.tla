----------------------------- MODULE TraceTools -----------------------------
(* Judges what the reporting tools show of recorded studies.
   cfg.dims[d]: [cat, n, log, low, high, name, const, cnames]
   cfg.m: coefficients of the models, cfg.nm: number of models per result    *)
EXTENDS ToolsCore, Json, IOUtils
VARIABLES ti, l, st, cnt
Traces == ndJsonDeserialize(IOEnv.TRACES)

CODE == 100000     \* coordinates are in units of 1/CODE
PInit(c) == [obs |-> [r \in 1..c.results |-> << >>]]
PPost(c, t, e) == IF e.op = "obs" THEN [t EXCEPT !.obs[e.r] = Append(@, [p |-> e.p, y |-> e.y])] ELSE t

Coord(obs, d) == [i \in DOMAIN obs |-> obs[i].p[d]]
Best(obs) == obs[FirstArgMin(Ys(obs))].p
NonConstant(c) == SelectSeq([d \in DOMAIN c.dims |-> d], LAMBDA d : ~c.dims[d].const)
Shown(c, e) == IF e.asked = << >> THEN NonConstant(c) ELSE e.asked
LabelOf(c, e, d, k) == IF e.labels # << >> THEN e.labels[k] ELSE Label(d, c.dims[d].name)
ModelOf(c, id) == [id |-> id, add |-> c.add, a |-> c.a]
GridFits(D, xs, n) == IF D.cat THEN CatGrid(xs, D.n, n, CODE) ELSE EvenGrid(xs, D.low, D.high, n, 2)

\* traces of convergence and regret
ArgLines(t, a, F(_)) == TraceLines([k \in DOMAIN a.rs |-> F(Ys(t.obs[a.rs[k]]))], a.list)
AllLines(t, e, F(_)) == CatAll([k \in DOMAIN e.args |-> ArgLines(t, e.args[k], F)])
Lowest(t, e) == MinSeq(CatAll([k \in DOMAIN e.args |->
    CatAll([j \in DOMAIN e.args[k].rs |-> Ys(t.obs[e.args[k].rs[j]])])]))
XsFit(e) == \A k \in DOMAIN e.lines : e.lines[k].mark \/ e.lines[k].x = [i \in DOMAIN e.lines[k].y |-> i]
Drawn(e) == LET s == SelectSeq(e.lines, LAMBDA q : ~q.mark) IN [k \in DOMAIN s |-> s[k].y]
Marks(e) == { e.lines[k].y[1] : k \in { j \in DOMAIN e.lines : e.lines[j].mark } }
TraceClauses(c, t, e) ==
    << Cl("V01", IF e.op = "conv" THEN "RunningMinimum" ELSE "CumulativeRegret",
          IsPermutation(Drawn(e), IF e.op = "conv" THEN AllLines(t, e, RunMin)
                                  ELSE AllLines(t, e, LAMBDA ys : Regret(ys, IF e.hastm THEN e.tm ELSE Lowest(t, e))))),
       Cl("V01", "CallsCountedFromOne", XsFit(e)),
       Cl("V01", "TrueMinimumMarked", Marks(e) = (IF e.op = "conv" /\ e.hastm THEN {UNIT * e.tm} ELSE {})),
       Cl("V01", "OnTheGivenAxes", e.same /\ e.scale),
       Cl("V01", "ResultUntouched", e.kept) >>

\* the matrix of plots of evaluations and of the objective
Matrix(e) == DOMAIN e.cells
StarAt(q, x, y, tol) == Near(q[1], x, tol) /\ Near(q[2], y, tol)
MatrixClauses(c, t, e) ==
    LET sh == Shown(c, e)
        obs == t.obs[e.r]
        best == IF e.star = << >> THEN Best(obs) ELSE e.star
        n == Len(sh)
        D(k) == c.dims[sh[k]]
        Pts(i, j) == [k \in DOMAIN obs |-> << obs[k].p[sh[j]], obs[k].p[sh[i]] >>] IN
    << Cl("V02", "OneRowAndColumnPerDimension", Len(e.cells) = n /\ \A i \in Matrix(e) : Len(e.cells[i]) = n) >>
    \o When(Len(e.cells) = n /\ \A i \in Matrix(e) : Len(e.cells[i]) = n,
    << Cl("V02", "LabelledAndScaled", \A i \in 1..n : \A j \in 1..i :
            LET q == e.cells[i][j] IN
            /\ (i = j \/ i = n) => q.xl = LabelOf(c, e, sh[j], j)
            /\ (i > j /\ j = 1) => q.yl = LabelOf(c, e, sh[i], i)
            /\ q.xlog = D(j).log /\ (i > j => q.ylog = D(i).log)
            /\ (i > j => /\ D(j).cat \/ (Near(q.xlim[1], D(j).low, 2) /\ Near(q.xlim[2], D(j).high, 2))
                         /\ D(i).cat \/ (Near(q.ylim[1], D(i).low, 2) /\ Near(q.ylim[2], D(i).high, 2)))),
       Cl("V02", "CategoriesNamed", \A i \in 1..n : \A j \in 1..i :
            LET q == e.cells[i][j] IN
            /\ ((i = n \/ i = j) /\ D(j).cat) => q.xn = D(j).cnames
            /\ (i > j /\ j = 1 /\ D(i).cat) => q.yn = D(i).cnames),
       Cl("V02", "UpperTriangleEmpty", \A i \in 1..n : \A j \in (i + 1)..n : ~e.cells[i][j].on),
       Cl("V02", "EveryEvaluationShown", \A i \in 1..n : \A j \in 1..(i - 1) :
            IF e.points THEN IsPermutation(e.cells[i][j].pts, Pts(i, j)) ELSE e.cells[i][j].pts = << >>),
       Cl("V02", "BestMarked", \A i \in 1..n : \A j \in 1..(i - 1) :
            StarAt(e.cells[i][j].star, best[sh[j]], best[sh[i]], 2)),
       Cl("V02", "ResultUntouched", e.kept) >>
    \o When(e.op = "evals",
    << Cl("V02", "EvaluationsOrdered", \A i \in 1..n : \A j \in 1..(i - 1) :
            LET q == e.cells[i][j] IN
            /\ Len(q.pts) = Len(q.order)
            /\ \A k \in DOMAIN obs : \E h \in DOMAIN q.order :
                  q.order[h] = k - 1 /\ q.pts[h] = << obs[k].p[sh[j]], obs[k].p[sh[i]] >>),
       Cl("V02", "HistogramsCountEvaluations", \A i \in 1..n :
            /\ HistFits(Coord(obs, sh[i]), e.cells[i][i].bins, 2)
            /\ IF D(i).cat THEN Len(e.cells[i][i].bins) = D(i).n
               ELSE /\ HistCovers(e.cells[i][i].bins, D(i).low, D(i).high, 2)
                    /\ D(i).log \/ (Len(e.cells[i][i].bins) = e.nbins /\ EvenBins(e.cells[i][i].bins, 4))) >>)
    \o When(e.op = "obj",
    << Cl("V03", "DiagonalIsPartialDependence", \A i \in 1..n :
            LET q == e.cells[i][i] IN
            /\ GridFits(D(i), q.gx, e.np) /\ Len(q.v) = Len(q.gx)
            /\ IF e.random THEN \A k \in DOMAIN q.v :
                                   Near(q.v[k] - q.v[1], e.ns * PDdiff(ModelOf(c, c.nm), sh[i], q.gc[k], q.gc[1]), 1)
               ELSE \A k \in DOMAIN q.v : q.v[k] = PD1(ModelOf(c, c.nm), e.samples, sh[i], q.gc[k])),
       Cl("V03", "LineAtTheMinimum", \A i \in 1..n : Near(e.cells[i][i].at, best[sh[i]], 2)),
       Cl("V03", "ContourIsPartialDependence", \A i \in 1..n : \A j \in 1..(i - 1) :
            LET q == e.cells[i][j]
                m == ModelOf(c, c.nm) IN
            /\ GridFits(D(j), q.gx, e.np) /\ GridFits(D(i), q.gy, e.np)
            /\ Len(q.z) = Len(q.gy)
            /\ \A y \in DOMAIN q.z : /\ Len(q.z[y]) = Len(q.gx)
                                     /\ \A x \in DOMAIN q.z[y] :
                                           IF e.random THEN Near(q.z[y][x] - q.z[1][1],
                                                e.ns * (PDdiff(m, sh[j], q.gc[x], q.gc[1]) + PDdiff(m, sh[i], q.gr[y], q.gr[1])), 1)
                                           ELSE q.z[y][x] = PD2(m, e.samples, sh[i], q.gr[y], sh[j], q.gc[x])) >>))

HistClauses(c, t, e) ==
    LET codes == Coord(t.obs[e.r], e.d)
        D == c.dims[e.d] IN
    << Cl("V02", "HistogramsCountEvaluations",
          IF D.cat THEN /\ Len(e.bars) = Cardinality(Range(codes))
                        /\ \A v \in Range(codes) : \E k \in DOMAIN e.bars :
                              e.bars[k].name = D.cnames[v \div CODE + 1]
                              /\ e.bars[k].n = Cardinality({ i \in DOMAIN codes : codes[i] = v })
          ELSE /\ HistFits(codes, e.bins, 2) /\ HistCovers(e.bins, D.low, D.high, 2)
               /\ D.log \/ (Len(e.bins) = e.nbins /\ EvenBins(e.bins, 4))),
       Cl("V02", "LabelledAndScaled", e.xlog = D.log /\ e.xl = D.name),
       Cl("V02", "ResultUntouched", e.kept) >>

PDClauses(c, t, e) ==
    LET m == ModelOf(c, e.m) IN
    << Cl("V03", "GridIsEven", /\ GridFits(c.dims[e.i], e.gi, e.np)
                               /\ e.j = 0 \/ GridFits(c.dims[e.j], e.gj, e.np)),
       Cl("V03", "PartialDependenceIsTheMean",
          IF e.j = 0 THEN /\ Len(e.v) = Len(e.ci)
                          /\ \A k \in DOMAIN e.v : e.v[k] = PD1(m, e.samples, e.i, e.ci[k])
          ELSE /\ Len(e.z) = Len(e.ci)
               /\ \A y \in DOMAIN e.z : /\ Len(e.z[y]) = Len(e.cj)
                                        /\ \A x \in DOMAIN e.z[y] :
                                            e.z[y][x] = PD2(m, e.samples, e.i, e.ci[y], e.j, e.cj[x])),
       Cl("V03", "SamplesUntouched", e.kept) >>
Obj2Clauses(c, t, e) ==
    LET obs == t.obs[e.r]
        best == IF e.star = << >> THEN Best(obs) ELSE e.star
        m == ModelOf(c, c.nm) IN
    << Cl("V03", "ContourIsPartialDependence",
          /\ GridFits(c.dims[e.i], e.gx, e.np) /\ GridFits(c.dims[e.j], e.gy, e.np)
          /\ Len(e.z) = Len(e.gy)
          /\ \A y \in DOMAIN e.z : /\ Len(e.z[y]) = Len(e.gx)
                                   /\ \A x \in DOMAIN e.z[y] :
                                        e.z[y][x] = PD2(m, e.samples, e.i, e.gc[x], e.j, e.gr[y])),
       Cl("V03", "EvaluationsAndMinimumShown",
          /\ IsPermutation(e.pts, [k \in DOMAIN obs |-> << obs[k].p[e.i], obs[k].p[e.j] >>])
          /\ StarAt(e.at, best[e.i], best[e.j], 2)),
       Cl("V03", "AxesOfTheDimensions", /\ e.xlog = c.dims[e.i].log /\ e.ylog = c.dims[e.j].log
                                        /\ e.xl = c.dims[e.i].name /\ e.yl = c.dims[e.j].name),
       Cl("V03", "ResultUntouched", e.kept) >>
\* one dimension: the model, its band, the observations it knows, acquisition
GPClauses(c, t, e) ==
    LET obs == t.obs[e.r]
        k == IF e.call < 0 THEN c.nm - 1 ELSE e.call
        m == [id |-> k + 1, add |-> c.add, a |-> c.a]
        known == Take(obs, Len(obs) - c.nm + 1 + k) IN
    << Cl("V03", "GridIsEven", GridFits(c.dims[1], e.gx, e.np)) >>
    \o When(e.mu,
       << Cl("V03", "MeanAndBandOfTheModel",
             /\ Len(e.line) = e.np
             /\ \A i \in 1..e.np : /\ e.line[i] = 100 * Model(m, << e.gc[i] >>)
                                   /\ e.lo[i] = e.line[i] - 196 * e.sd[i]
                                   /\ e.hi[i] = e.line[i] + 196 * e.sd[i]) >>)
    \o << Cl("V03", "ObservationsOfTheModel",
             e.pts = IF e.observations THEN [i \in DOMAIN known |-> << known[i].p[1], known[i].y >>] ELSE << >>) >>
    \o When(e.acq,
       << Cl("V03", "AcquisitionAndItsOptimum",
             /\ Len(known) \in Range(e.fits)
             /\ e.next => /\ \E i \in 1..e.np : e.np1 = << e.gx[i], e.acqs[i] >>
                          /\ \A i \in 1..e.np : e.acqs[i] <= e.np1[2]) >>)
    \o << Cl("V03", "ResultUntouched", e.kept) >>

\* names: values are numbers, names strings
Pairs(names, vals) == { << names[i], vals[i] >> : i \in DOMAIN names }
NameClauses(c, t, e) ==
    CASE e.op = "named" ->
           << Cl("U01", "CalledWithTheNames",
                 IF e.good THEN /\ Len(e.calls) = 1
                                /\ { << p[1], p[2] >> : p \in Range(e.calls[1]) } = Pairs(e.names, e.x)
                                /\ Len(e.calls[1]) = Len(e.names) /\ e.ret /\ ~e.err
                 ELSE e.calls = << >> /\ e.err),
              Cl("U01", "NothingElseChanged", e.kept) >>
      [] e.op = "dict" ->
           << Cl("U01", "NamesAndPositionsInverse",
                 /\ e.keys = e.sorted
                 /\ e.vals = e.x
                 /\ e.back = e.x
                 /\ Pairs(e.keys, e.dims) = Pairs(e.given, [i \in DOMAIN e.given |-> i])
                 /\ e.lists = [i \in DOMAIN e.names |-> e.lookup[i]]),
              Cl("U01", "NothingElseChanged", e.kept) >>
      [] OTHER ->
           << Cl("U01", "DimensionsFoundByName",
                 /\ \A i \in DOMAIN e.q : e.got[i] = e.want[i]
                 /\ \A i \in DOMAIN e.want : e.want[i] # 0 =>
                      (e.q[i].name # "" => c.dims[e.want[i]].name = e.q[i].name)
                 /\ e.names = [d \in DOMAIN c.dims |-> DefaultName(d, c.dims[d].name)]),
              Cl("U01", "NothingElseChanged", e.kept) >>

\* the minimum expected by the last model: everything as ranks
MinClauses(c, t, e) ==
    << Cl("U02", "WithinTheSpace", \A i \in DOMAIN e.x : e.lo[i] <= e.x[i] /\ e.x[i] <= e.hi[i]),
       Cl("U02", "ValueIsThePrediction", e.fun = e.pred),
       Cl("U02", "NotAboveTheStarts", \A i \in DOMAIN e.starts : e.fun <= e.starts[i]),
       Cl("U02", "SameSeedSameAnswer", e.again),
       Cl("U02", "ResultUntouched", e.kept) >>
    \o When(e.op = "emr",
       << Cl("U02", "BestOfTheSamples", e.member /\ \E i \in DOMAIN e.starts : e.fun = e.starts[i]) >>)

PClauses(c, t, e) ==
    CASE e.op = "obs" -> << >>
      [] e.op \in {"conv", "regret"} -> TraceClauses(c, t, e)
      [] e.op \in {"evals", "obj"} -> MatrixClauses(c, t, e)
      [] e.op = "hist" -> HistClauses(c, t, e)
      [] e.op = "pd" -> PDClauses(c, t, e)
      [] e.op = "obj2" -> Obj2Clauses(c, t, e)
      [] e.op = "gp" -> GPClauses(c, t, e)
      [] e.op \in {"em", "emr"} -> MinClauses(c, t, e)
      [] OTHER -> NameClauses(c, t, e)
INSTANCE TraceRunner WITH InitState <- PInit, Post <- PPost, Clauses <- PClauses
Spec == TInit /\ [][TNext]_<<ti, l, st, cnt>>
=============================================================================
