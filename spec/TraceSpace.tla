----------------------------- MODULE TraceSpace -----------------------------
(* Judges what the dimensions and spaces of the code were seen to do.  The
   objects are pure, so there is no state between events.                   *)
EXTENDS SpaceCore, Json, IOUtils
VARIABLES ti, l, st, cnt
Traces == ndJsonDeserialize(IOEnv.TRACES)

Tol == 3
RowsMatch(d, js, tx) ==
    IF Labelled(d)
    THEN /\ \A i \in DOMAIN js : \E p \in Positions(d) : SameRow(tx[i], Warp(d, p), Tol)
         /\ \A i, k \in DOMAIN js : (js[i] = js[k]) <=> SameRow(tx[i], tx[k], Tol)
    ELSE \A i \in DOMAIN js : SameRow(tx[i], Warp(d, js[i]), Tol)

DimClauses(e) ==
    LET d == e.d IN
    << Cl("S01", "TransformAnswers", e.err = "") >>
    \o When(e.err = "",
       << Cl("S01", "RoundTrip", e.back = e.ids),
          Cl("S01", "RoundTripTypes", e.typed),
          Cl("S01", "InverseAnyContainer", e.cont),
          Cl("S02", "Size", e.size = Size(d)) >>
       \o When(Numeric(d),
       << Cl("S02", "Warped", Len(e.tx) = Len(e.js) /\ RowsMatch(d, e.js, e.tx)),
          Cl("S02", "OneByOne", e.one = e.tx),
          Cl("S02", "Bounds", Len(e.tb) = Size(d) /\
              \A i \in DOMAIN e.tb : /\ Near(e.tb[i][1], WarpBounds(d)[i][1], Tol)
                                     /\ Near(e.tb[i][2], WarpBounds(d)[i][2], Tol)),
          Cl("S01", "TransformedInBounds",
              \A i \in DOMAIN e.tx : RowInBounds(e.tx[i], e.tb, Tol)) >>))

\* inverse transform of arbitrary rows of the warped space
InvClauses(e) ==
    LET d == e.d IN
    << Cl("S01", "InverseAnswers", e.err = "") >>
    \o When(e.err = "",
       << Cl("S01", "InverseInSpace", e.inside), Cl("S01", "InverseTyped", e.typed) >>
       \o When(d.k = "real", << Cl("S01", "InverseExact",
               \A i \in DOMAIN e.u : SameRow(e.tu[i], e.u[i], 5)) >>)
       \o When((d.k = "int" /\ d.pr = "uniform") \/ Labelled(d), << Cl("S01", "InverseNearest",
               \A i \in DOMAIN e.u : \A j \in Positions(d) :
                  Abs(e.tu[i][1] - e.u[i][1]) <= Abs(Warp(d, j)[1] - e.u[i][1]) + Tol) >>)
       \o When(d.k = "int" /\ d.pr = "log", << Cl("S01", "InverseNearest",
               \A i \in DOMAIN e.v : Near(e.v[i], e.x[i], 502)) >>))

SpaceClauses(e) ==
    << Cl("S02", "SpaceAnswers", e.err = "") >>
    \o When(e.err = "",
    << Cl("S01", "SpaceRoundTrip", e.back = e.ids),
       Cl("S01", "SpaceRoundTripTypes", e.typed),
       Cl("S02", "Width", e.nt = Len(Columns(e.ds)) /\ Len(e.tb) = e.nt
              /\ \A i \in DOMAIN e.tx : Len(e.tx[i]) = e.nt),
       Cl("S02", "ColumnsInOrder", \A i \in DOMAIN e.tx :
              e.tx[i] = CatAll([k \in DOMAIN e.ds |-> e.dimtx[k][i]])),
       Cl("S02", "BoundsInOrder", e.tb = CatAll(e.dimtb)),
       Cl("S02", "SpaceWarped", \A i \in DOMAIN e.tx : \A k \in DOMAIN e.ds :
              RowsMatch(e.ds[k], << e.pts[i][k] >>, << e.dimtx[k][i] >>)),
       Cl("S01", "SpaceTransformedInBounds",
              \A i \in DOMAIN e.tx : RowInBounds(e.tx[i], e.tb, Tol)) >>)

InferClauses(e) ==
    IF Open(e.toks) THEN << >>
    ELSE LET x == Infer(e.toks) IN
         IF x = Err THEN << Cl("S03", "InvalidDescription", e.err # "") >>
         ELSE << Cl("S03", "DescriptionAccepted", e.err = ""),
                 Cl("S03", "Kind", e.k = x.k),
                 Cl("S03", "Values", e.same) >>
              \o When(x.k # "cat", << Cl("S03", "PriorAndBase",
                     e.pr = x.pr /\ (x.pr = "log-uniform" => e.base = x.base)) >>)

YamlClauses(e) ==
    << Cl("S03", "YamlAnswers", e.err = "") >>
    \o When(e.err = "", << Cl("S03", "YamlDimensions", e.got = e.want) >>)
NameClauses(e) ==
    << Cl("S03", "Names", e.names = [i \in DOMAIN e.given |->
           IF e.given[i] = "" THEN "X_" \o ToString(i - 1) ELSE e.given[i]]),
       Cl("S03", "LookUp", \A q \in DOMAIN e.queries :
           LET w == e.queries[q]
               hits == { i \in DOMAIN e.given : e.given[i] = w /\ w # "" }
           IN e.found[q] = IF hits = {} THEN 0
                           ELSE CHOOSE i \in hits : \A k \in hits : i <= k),
       Cl("S03", "LookUpList", e.foundlist = e.found) >>

\* positions < 0 stand for values which do not belong to the dimension
Belongs(ds, p) == Len(p) = Len(ds) /\ \A i \in DOMAIN ds : p[i] >= 0
MemberClauses(e) ==
    << Cl("S04", "Membership", e.isin = Belongs(e.ds, e.p)) >>
    \o When(Len(e.p) = Len(e.ds), << Cl("S04", "MembershipPerDimension",
            \A i \in DOMAIN e.ds : e.each[i] = (e.p[i] >= 0)) >>)
\* distances in units of 1/1000
DimGap(d, a, b) ==
    CASE d.k = "cat" -> IF a = b THEN 0 ELSE 1000
      [] d.k = "int" /\ d.pr = "uniform" -> 1000 * Abs(a - b)
      [] d.k = "int" -> 1000 * Abs(Pow(d.base, d.lo + a) - Pow(d.base, d.lo + b))
      [] OTHER -> (1000 * Abs(a - b) * (d.hi - d.lo)) \div 32
DistClauses(e) ==
    IF Belongs(e.ds, e.a) /\ Belongs(e.ds, e.b)
    THEN << Cl("S04", "Distance", e.err = "" /\
            Near(e.dist, SumSeq([i \in DOMAIN e.ds |-> DimGap(e.ds[i], e.a[i], e.b[i])]),
                 Len(e.ds) + 1)),
            Cl("S04", "DistanceSymmetric", e.dist = e.tsid) >>
    ELSE << Cl("S04", "NoDistanceOutside", e.err # "") >>
EqClauses(e) ==
    LET same == /\ Len(e.d1) = Len(e.d2)
                /\ \A i \in DOMAIN e.d1 : SameDim(e.d1[i], e.d2[i]) IN
    << Cl("S04", "Equality", e.eq = same /\ e.ne = ~same) >>

\* bins every one of which a few hundred samples have to reach
Bins(d) == CASE d.k = "real" -> 0..7
             [] d.k = "int" /\ d.pr = "log" -> 0..(Steps(d) - 1)
             [] OTHER -> Positions(d)
RvsClauses(e) ==
    << Cl("S05", "SampleCount", e.got = e.n),
       Cl("S05", "SamplesInSpace", e.inside),
       Cl("S05", "SampleTypes", e.typed),
       Cl("S05", "SamplesRepeat", e.again) >>
    \o When(e.n >= 400, << Cl("S05", "EveryValueIsSampled",
           \A i \in DOMAIN e.ds :
              (e.ds[i].k = "real" \/ (e.ds[i].k = "cat" /\ e.ds[i].n <= 5)
                 \/ (e.ds[i].k = "int" /\ Steps(e.ds[i]) <= 12)) =>
              \A j \in Bins(e.ds[i]) :
                 (j \in Range(e.hits[i])) = (j \notin Range(e.zero[i]))) >>)

\* dimensions of any magnitude, in units of their own
WideClauses(e) ==
    << Cl("S01", "WideAnswers", e.err = "") >>
    \o When(e.err = "",
    << Cl("S01", "WideRoundTrip", e.back = e.ids /\ Len(e.ids) = e.n),
       Cl("S01", "WideInBounds", e.inb),
       Cl("S01", "WideInverse", e.inv),
       Cl("S02", "WideOrder", e.wrank = e.rank),
       Cl("S02", "WideEnds", e.ends),
       Cl("S05", "WideSamples", e.sampled /\ e.typed) >>
    \o When(e.tr = "normalize", << Cl("S02", "WideUnit", e.unit) >>)
    \o When(e.tr = "identity" /\ ~e.log, << Cl("S02", "WideIdentity", e.same) >>))

All(s) == \A i \in DOMAIN s : s[i]
FactClauses(e) ==
    LET K(i) == e.ds[i].k
        Const(i) == K(i) = "cat" /\ e.ds[i].n <= 1 IN
    << Cl("S03", "Facts",
          /\ e.ndims = Len(e.ds)
          /\ e.real = \A i \in DOMAIN e.ds : K(i) = "real"
          /\ e.cat = \A i \in DOMAIN e.ds : K(i) = "cat"
          /\ e.partly = \E i \in DOMAIN e.ds : K(i) = "cat"
          /\ e.const = Cardinality({ i \in DOMAIN e.ds : Const(i) })
          /\ e.each = [i \in DOMAIN e.ds |-> Const(i)]),
       Cl("S03", "Bounds", Len(e.bounds) = Len(e.ds) /\ All(e.bounds)),
       Cl("S03", "LookUpIndex", Len(e.index) = Len(e.ds) /\ All(e.index) /\ All(e.iter)),
       Cl("S03", "TransformerByType",
          /\ e.before = [i \in DOMAIN e.ds |-> e.ds[i].tr]
          /\ e.by = [i \in DOMAIN e.ds |-> IF K(i) = e.bykind THEN e.bynew ELSE e.ds[i].tr]) >>

SpClauses(c, s, e) ==
    CASE e.op = "dim" -> DimClauses(e)
      [] e.op = "inv" -> InvClauses(e)
      [] e.op = "space" -> SpaceClauses(e)
      [] e.op = "wide" -> WideClauses(e)
      [] e.op = "facts" -> FactClauses(e)
      [] e.op = "infer" -> InferClauses(e)
      [] e.op = "yaml" -> YamlClauses(e)
      [] e.op = "name" -> NameClauses(e)
      [] e.op = "member" -> MemberClauses(e)
      [] e.op = "dist" -> DistClauses(e)
      [] e.op = "eq" -> EqClauses(e)
      [] e.op = "rvs" -> RvsClauses(e)
SpInit(c) == 0
SpPost(c, s, e) == 0
INSTANCE TraceRunner WITH InitState <- SpInit, Post <- SpPost, Clauses <- SpClauses
Spec == TInit /\ [][TNext]_<<ti, l, st, cnt>>
=============================================================================
