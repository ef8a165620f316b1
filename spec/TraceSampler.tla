---------------------------- MODULE TraceSampler ----------------------------
(* Judges the designs made by generators, also through an optimizer.         *)
EXTENDS SamplerCore, Json, IOUtils
VARIABLES ti, l, st, cnt
Traces == ndJsonDeserialize(IOEnv.TRACES)

\* points made by every generator, designs by request
GInit(c) == [made |-> [i \in DOMAIN c.gens |-> 0], table |-> << >>]
Gen(c, e) == c.gens[e.g]
Bad(c, t, e) == Refused(Gen(c, e), IF e.own THEN t.made[e.g] ELSE 0, e.n, e.d)
Known(t, k) == { i \in DOMAIN t.table : t.table[i][1] = k }
Skips(g) == IF g.lo = g.hi THEN {g.lo} ELSE g.lo..g.hi

LhsClauses(g, e) ==
    << Cl("G01", "OnePerStratum", \A k \in 1..e.d : Stratified(Column(e.pts, k), Tol)) >>
    \o When(g.type = "centered",
       << Cl("G01", "CentreOfStratum", \A k \in 1..e.d : Centred(Column(e.pts, k), Tol)) >>)
    \o When(e.narrow /\ e.n >= 12 /\ e.d > 1,
       << Cl("G01", "IndependentDimensions",
             \A j, k \in 1..e.d : j < k => Ranks(Column(e.pts, j)) # Ranks(Column(e.pts, k))) >>)

GridClauses(g, e) ==
    LET m == Order(g.border, g.full, e.n, e.d)
        size == GridSize(g.border, m, e.d)
        fits == g.full /\ size <= e.n
        off == { i \in DOMAIN e.pts : ~OnLevels(e.pts[i], g.border, m, Tol) } IN
    << Cl("G01", "OnTheGrid", IF fits
            THEN \E a \in MinOrder(g.app)..(e.n + 2) :
                    \A i \in off : OnLevels(e.pts[i], g.app, a, Tol)
            ELSE off = {}) >>
    \o When(fits /\ e.narrow,
       << Cl("G01", "FullFactorial", Covers(e.pts, g.border, m, e.d, Tol)) >>)
    \o When(~fits /\ e.narrow,
       << Cl("G01", "GridPointsOnce", Cardinality(Range(e.ids)) = e.n) >>)

SeqClauses(g, e) ==
    LET b == Bases(g.primes, IF g.kind = "hammersly" /\ e.d > 1 THEN e.d - 1 ELSE e.d) IN
    << Cl("G02", IF g.kind = "halton" \/ e.d = 1 THEN "Halton" ELSE "Hammersly",
          \E s \in Skips(g) : IF g.kind = "halton" \/ e.d = 1 THEN IsHalton(e.pts, b, s, Tol)
                              ELSE IsHammersly(e.pts, b, s, Tol)) >>
SobolClauses(g, e) ==
    << Cl("G02", IF g.shifted THEN "ShiftedSobolBalanced" ELSE "SobolBalanced",
          SobolBalanced(e.pts, g.skip, g.shifted, Tol)) >>
    \o When(~g.shifted /\ e.unit /\ e.d > 1, << Cl("G02", "SobolNet", Net2(e.pts, g.skip)) >>)
    \o When(~g.shifted /\ e.narrow /\ e.n >= 32 /\ e.d > 1 /\ e.d <= 16,
       << Cl("G02", "SobolDimensionsDiffer",
             \A j, k \in 1..e.d : j < k => Ranks(Column(e.pts, j)) # Ranks(Column(e.pts, k))) >>)

Structure(g, e) ==
    CASE e.n = 0 -> << >>
      [] g.kind = "lhs" -> LhsClauses(g, e)
      [] g.kind = "grid" -> GridClauses(g, e)
      [] g.kind \in {"halton", "hammersly"} -> SeqClauses(g, e)
      [] g.kind = "sobol" -> SobolClauses(g, e)
      [] OTHER -> << >>
\* sequences whose first points do not depend on how many are asked for
Prefix(g) == g.kind \in {"halton", "sobol"}
GenClauses(c, t, e) ==
    LET g == Gen(c, e) IN
    IF Bad(c, t, e)
    THEN << Cl("G02", "SequenceDoesNotRepeat", e.err) >>
    ELSE IF e.err THEN << Cl("G03", "RequestHonoured", FALSE) >>
    ELSE << Cl("G03", "RequestHonoured", TRUE),
            Cl("G03", "NumberOfPoints", Len(e.pts) = e.n /\ \A i \in DOMAIN e.pts : Len(e.pts[i]) = e.d),
            Cl("G03", "InsideSpace", e.inside),
            Cl("G03", "GlobalRandomStateUntouched", e.grng),
            Cl("G03", "SettingsUntouched", e.same) >>
         \o When(Len(e.pts) = e.n, Structure(g, e))
         \o When(e.key # "" /\ Known(t, e.key) # {},
            << Cl("G03", "SameRequestSameDesign",
                  \A i \in Known(t, e.key) :
                     IF Prefix(g) THEN IsPrefixOf(t.table[i][2], e.ids) \/ IsPrefixOf(e.ids, t.table[i][2])
                     ELSE t.table[i][2] = e.ids) >>)
GPost(c, t, e) ==
    IF e.op # "gen" THEN t
    ELSE [made |-> [t.made EXCEPT ![e.g] = IF e.own THEN After(Gen(c, e), @, e.n, e.d) ELSE @],
          table |-> IF e.err \/ e.key = "" THEN t.table ELSE Append(t.table, << e.key, e.ids >>)]
GClauses(c, t, e) ==
    CASE e.op = "gen" -> GenClauses(c, t, e)
      [] e.op = "best" -> << Cl("G01", "BestOfTheDesigns", e.got <= MinSeq(e.others) + 2) >>
INSTANCE TraceRunner WITH InitState <- GInit, Post <- GPost, Clauses <- GClauses
Spec == TInit /\ [][TNext]_<<ti, l, st, cnt>>
=============================================================================
