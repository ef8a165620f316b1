----------------------------- MODULE TraceLearn -----------------------------
(* Judges recorded lives and predictions of surrogate models.                *)
EXTENDS LearnCore, Json, IOUtils
VARIABLES ti, l, st, cnt
Traces == ndJsonDeserialize(IOEnv.TRACES)

\* seen: predictions << fit, values, deviations >> so far
LInit(c) == [est |-> [i \in 1..c.ests |-> New(IF i <= Len(c.sets) THEN c.sets[i] ELSE 0)], seen |-> << >>]

Close(a, b) == /\ Len(a) = Len(b)
               /\ \A i \in DOMAIN a : Near(a[i], b[i], 5 + Abs(a[i]) \div 100000)
PredClauses(c, t, e) ==
    LET f == t.est[e.e].fit
        old == { i \in DOMAIN t.seen : t.seen[i].fit = f } IN
    << Cl("R02", "DeterminedBySettingsAndData",
          \A i \in old : Close(e.mean, t.seen[i].mean) /\ Close(e.std, t.seen[i].std)),
       Cl("R02", "DeviationsAsked", Close(e.mean, e.pmean)),
       Cl("R02", "SettingsUnchanged", e.keep),
       Cl("R02", "GlobalStateUntouched", e.glob) >>
    \* up to rounding, unless the training points are nearly dependent
    \o When(~e.rough,
       << Cl("R02", "RowsIndependent", Close(e.mean, e.amean) /\ Close(e.std, e.astd)) >>)
FitClauses(c, t, e) ==
    << Cl("R02", "SettingsUnchanged", e.keep),
       Cl("R02", "TrainingDataUnchanged", e.data),
       Cl("R02", "GlobalStateUntouched", e.glob),
       Cl("R02", "FitReturnsSelf", e.self) >>

ForestClauses(e) ==
    LET v == ForestVar(e.leaves, e.minv) IN
    << Cl("L02", "MeanOfTheTrees", Near(e.mean, ForestMean(e.leaves), 2)),
       Cl("L02", "LawOfTotalVariance",
          Near((e.std * e.std) \div 1000, v, 5 + e.std \div 500 + v \div 500)) >>
QuantClauses(e) ==
    LET at(q) == CHOOSE k \in DOMAIN e.q : e.q[k] = q
        lo == e.ref[at(160)]
        mid == e.ref[at(500)]
        hi == e.ref[at(840)] IN
    << Cl("L02", "QuantilesInTheOrderGiven", Len(e.cols) = Len(e.ref)
            /\ \A k \in DOMAIN e.ref : Close(e.cols[k], e.ref[k])),
       Cl("L02", "MedianIsPredicted", Close(e.plain, mid) /\ Close(e.mean, mid)),
       Cl("L02", "HalfTheQuantileRange",
          \A i \in DOMAIN e.std : Near(2 * e.std[i], hi[i] - lo[i], 6)) >>

\* x: a point, z: another one
PostClauses(e) ==
    LET y0 == IF e.norm THEN MeanOf(e.ys) ELSE 0
        s2 == IF e.norm THEN VarOf(e.ys) ELSE U
        n == Len(e.ys)
        tol == 10 + 4 * n IN
    << Cl("L01", "PosteriorMean", Near(MeanGap(e.noise, e.mu, y0, e.kx, e.ys, e.mus), 0, tol)),
       Cl("L01", "PosteriorCovariance", Near(CovGap(e.noise, s2, e.c, e.k, e.kz, e.cx), 0, tol)),
       Cl("L01", "DeviationIsRootOfCovariance", Near(Mul(e.std, e.std), e.cxx, 4 + e.std \div 2000)),
       Cl("L01", "NoiseReported", e.nok) >>
\* deviations and variances in hundredths
FarClauses(e) ==
    << Cl("L01", "DeviationIsRootOfCovariance",
          \A i \in DOMAIN e.sd :
             IF e.sd[i] < 20000 THEN Near((e.sd[i] * e.sd[i]) \div 100, e.c[i], 3 + e.sd[i] \div 20 + e.c[i] \div 200)
             ELSE Near(((e.sd[i] \div 10) * (e.sd[i] \div 10)) , e.c[i], 100 + e.c[i] \div 200)) >>
PriorClauses(e) ==
    << Cl("L01", "Prior", e.mu = 0 /\ Near(Mul(e.std, e.std), e.kxx, 4) /\ Near(e.cov, e.k, 2)) >>
SlopeNear(a, b) == \A i \in DOMAIN a : Near(a[i], b[i], 20 + Abs(b[i]) \div 100)
GradClauses(e) ==
    << Cl("L01", "GradientOfTheMean", Len(e.gm) = Len(e.sm) /\ SlopeNear(e.gm, e.sm)) >>
    \o When(e.sharp,
       << Cl("L01", "GradientOfTheDeviation", Len(e.gs) = Len(e.ss) /\ SlopeNear(e.gs, e.ss)) >>)

KernelClauses(e) ==
    << Cl("L03", "Value", Near(e.v, KV(e.t), 10 + Abs(e.v) \div 100)),
       Cl("L03", "Gradient", \A i \in DOMAIN e.g : Near(e.g[i], KG(e.t, i), 15 + Abs(e.g[i]) \div 50)),
       Cl("L03", "GradientIsSlope", SlopeNear(e.fine, e.slope)),
       Cl("L03", "FiniteAtTheTrainingPoint", e.finite) >>
HammingClauses(e) ==
    << Cl("L03", "HammingValue", Near(e.v, e.want, 3)),
       Cl("L03", "HammingHyperparameters", SlopeNear(e.g, e.slope)) >>

LClauses(c, t, e) ==
    CASE e.op = "pred" -> PredClauses(c, t, e)
      [] e.op = "fit" -> FitClauses(c, t, e)
      [] e.op = "forest" -> ForestClauses(e)
      [] e.op = "quant" -> QuantClauses(e)
      [] e.op = "post" -> PostClauses(e)
      [] e.op = "far" -> FarClauses(e)
      [] e.op = "prior" -> PriorClauses(e)
      [] e.op = "grad" -> GradClauses(e)
      [] e.op = "kernel" -> KernelClauses(e)
      [] e.op = "hamming" -> HammingClauses(e)
      [] OTHER -> << >>
LPost(c, t, e) ==
    CASE e.op = "fit" -> [t EXCEPT !.est[e.e] = FitTo(@, e.v)]
      [] e.op = "set" -> [t EXCEPT !.est[e.e] = SetTo(@, e.v)]
      [] e.op = "clone" -> [t EXCEPT !.est[e.v] = CloneOf(t.est[e.e])]
      [] e.op = "pickle" -> [t EXCEPT !.est[e.v] = t.est[e.e]]
      [] e.op = "pred" -> [t EXCEPT !.seen = Append(@, [fit |-> t.est[e.e].fit, mean |-> e.mean, std |-> e.std])]
      [] OTHER -> t
INSTANCE TraceRunner WITH InitState <- LInit, Post <- LPost, Clauses <- LClauses
Spec == TInit /\ [][TNext]_<<ti, l, st, cnt>>
=============================================================================
