----------------------------- MODULE ConfigCore -----------------------------
(* What an ask/tell optimizer is built from.

   A request r
     form   how the surrogate is given: "name", "instance", "wrapped" (an
            instance inside a regressor for several outputs), "junk"
     kind   GP, GPH (Gaussian process with a kernel for categories), RF, ET,
            GBRT, STUB (a regressor of the caller's own), DUMMY, BAD
     style  spelling of the name: "upper", "lower", "mixed"
     acq    acquisition as given   how    acquisition optimizer as given
     space  "real", "mixed", "mostly" (two thirds are categories), "cats"
   A request for a design g: [form, kind, style]; for counts k:
     n, dep numbers of initial points (dep: by the deprecated name, None = 99)
     q      limit for the surrogates kept: "none", "two", "float"           *)
EXTENDS Base

Acqs == {"gp_hedge", "EI", "LCB", "PI", "EIps", "PIps"}
PerSecond(r) == r.acq \in {"EIps", "PIps"}
Estimators == {"GP", "GPH", "RF", "ET", "GBRT", "STUB", "DUMMY"}

Surrogate(r) == IF r.form = "name" /\ r.kind = "GP" /\ r.space = "cats" THEN "GPH" ELSE r.kind
HasGradients(r) == Surrogate(r) = "GP"
Valid(r) == /\ r.form # "junk" /\ r.kind \in Estimators
            /\ r.acq \in Acqs
            /\ r.how \in {"auto", "lbfgs", "sampling"}
            /\ r.how = "lbfgs" => HasGradients(r)
Method(r) == IF r.how # "auto" THEN r.how
             ELSE IF HasGradients(r) THEN "lbfgs" ELSE "sampling"
Outer(r) == IF PerSecond(r) \/ r.form = "wrapped" THEN "several" ELSE "one"
Normalised(r) == Surrogate(r) \in {"GP", "GPH"}

Designs == {"SOBOL", "HALTON", "HAMMERSLY", "LHS", "GRID", "RANDOM"}
DesignValid(g) == g.form # "junk" /\ g.kind \in Designs

NotGiven == 99
Count(k) == IF k.dep # NotGiven THEN k.dep ELSE k.n
CountValid(k) == Count(k) >= 0 /\ k.q # "float"
=============================================================================
