----------------------------- MODULE TraceConfig -----------------------------
(* Judges optimizers by the requests they were built from.                    *)
EXTENDS ConfigCore, Json, IOUtils
VARIABLES ti, l, st, cnt
Traces == ndJsonDeserialize(IOEnv.TRACES)

BuildClauses(r, e) ==
    << Cl("O10", "BuiltExactlyIfValid", (e.err = "") = Valid(r)) >>
    \o When(Valid(r) /\ e.err = "",
       << Cl("O10", "Refined", e.refined = (Method(r) = "lbfgs" /\ r.kind # "DUMMY")),
          Cl("O10", "SuggestsFromTheSpace", e.insp) >>
       \o When(r.kind = "DUMMY", << Cl("O10", "NoSurrogate", e.surrogate = "none") >>)
       \o When(r.kind # "DUMMY",
          << Cl("O10", "SurrogateAsNamed", e.surrogate = Surrogate(r)),
             Cl("O10", "SeveralOutputs", e.outer = Outer(r)),
             Cl("O10", "SettingsReachTheSurrogate", e.settings) >>)
       \o << Cl("O10", "NormalisedForProcesses", e.norm = Normalised(r)) >>
       \o When(r.form = "name" /\ r.kind = "GP",
          << Cl("O10", "ScalePerColumn", e.scales = e.width) >>))
DesignClauses(g, e) ==
    << Cl("O10", "DesignKnown", (e.err = "") = DesignValid(g)) >>
    \o When(DesignValid(g) /\ e.err = "",
       << Cl("O10", "DesignAsNamed", e.cls = g.kind),
          Cl("O10", "SearchUsesTheDesign", e.same) >>)
CountClauses(k, e) ==
    << Cl("O10", "CountsAccepted", (e.err = "") = CountValid(k)) >>
    \o When(CountValid(k) /\ e.err = "",
       << Cl("O10", "InitialPointsAsRequested", e.first = Max2(Count(k), 1)),
          Cl("O10", "KeptAsRequested", e.kept = IF k.q = "two" THEN 2 ELSE e.trained) >>)

CClauses(c, t, e) ==
    CASE e.op = "build" -> BuildClauses(e.r, e)
      [] e.op = "design" -> DesignClauses(e.r, e)
      [] e.op = "count" -> CountClauses(e.r, e)
CInit(c) == 0
CPost(c, t, e) == t + 1
INSTANCE TraceRunner WITH InitState <- CInit, Post <- CPost, Clauses <- CClauses
Spec == TInit /\ [][TNext]_<<ti, l, st, cnt>>
=============================================================================
