------------------------------ MODULE TraceAcq ------------------------------
(* Judges acquisition values, suggestions and hedging against AcqCore.       *)
EXTENDS AcqCore, Json, IOUtils
VARIABLES ti, l, st, cnt
Traces == ndJsonDeserialize(IOEnv.TRACES)

\* hedging state of the optimizers and copies in the trace: possible gains,
\* and the proposals of the last surrogate (none before the first)
\* cp: whether it is a copy (or works for a batch)
\* n, hits: how often the arm ahead could be told, and its proposal was taken
AInit(c) == [o \in 1..c.chains |-> [G |-> {Zero}, best |-> << >>, cp |-> o = c.chains /\ o > 1,
                                    n |-> 0, hits |-> 0]]

Want(e) == CASE e.f = "EI" -> EI(e.mu4, e.s, e.y4, e.xi4)
             [] e.f = "PI" -> PI(e.mu4, e.s, e.y4, e.xi4)
             [] e.f = "LCB" -> LCB(e.mu4, e.s, e.k4)
WantGrad(e) == CASE e.f = "EI" -> EIGrad(e.mu4, e.s, e.y4, e.xi4, e.a, e.b)
                 [] e.f = "PI" -> PIGrad(e.mu4, e.s, e.y4, e.xi4, e.a, e.b)
                 [] e.f = "LCB" -> LCBGrad(e.k4, e.a, e.b)
ValClauses(e) ==
    << Cl("A01", e.f \o "Value", Near(e.got, Want(e), 60)) >>
    \o When(e.grad, << Cl("A01", e.f \o "Gradient", Near(e.ggot, WantGrad(e), 60)) >>)
Base1(e) == IF e.f = "EIps" THEN EI(e.mu4, e.s, e.y4, e.xi4) ELSE PI(e.mu4, e.s, e.y4, e.xi4)
BaseG(e) == IF e.f = "EIps" THEN EIGrad(e.mu4, e.s, e.y4, e.xi4, e.a, e.b)
            ELSE PIGrad(e.mu4, e.s, e.y4, e.xi4, e.a, e.b)
PsTol(v) == 60000 + Abs(v) \div 400
PsClauses(e) ==
    LET w == CostPs([f |-> e.f, xi4 |-> e.xi4], e.y4, e.mu4, e.s, e.mt, e.st)
        g == PsGrad(Base1(e), BaseG(e), e.mt, e.st, e.at, e.bt) IN
    << Cl("A01", "PerSecondValue", Near(e.got, w, PsTol(w))) >>
    \o When(e.grad /\ e.s > 0,
       << Cl("A01", "PerSecondGradient", Near(e.ggot, g, 120000 + 3 * PsTol(w) + Abs(g) \div 200)) >>)

RealClauses(e) ==
    << Cl("A01", "RowsIndependent", e.together = e.alone),
       Cl("A01", "Range", \A i \in DOMAIN e.together :
             CASE e.f = "EI" -> e.together[i] >= 0
               [] e.f = "PI" -> e.together[i] \in 0..1000000
               [] OTHER -> TRUE) >>

\* improvements that are ever less likely (m: deviations the mean lies above
\* what would be an improvement), by the ranks of their values
TailClauses(e) ==
    << Cl("A01", "UnlikelyOrdered", \A i, j \in DOMAIN e.m :
             e.m[i] < e.m[j] => e.ranks[i] > e.ranks[j]),
       Cl("A01", "UnlikelyPossible", \A i \in DOMAIN e.m : e.pos[i]),
       Cl("A01", "CertainHasNone", \A i \in DOMAIN e.certain : e.certain[i] = 0) >>

\* candidates of one trained surrogate
Best(c, f, y4, rows) == BestRows([f |-> f, xi4 |-> c.xi4, k4 |-> c.k4], y4, rows)
BestAll(c, e) == [i \in 1..3 |-> Best(c, Arms[i], e.y4, e.rows)]
\* gains which could be too many things are no longer followed (no gains)
FitGains(t, e) == IF t[e.o].best = << >> \/ e.fresh THEN t[e.o].G
                  ELSE LET G == NextGains(t[e.o].G, t[e.o].best, e.pm) IN
                       IF Cardinality(G) > 60 THEN {} ELSE G
Allowed(c, e) == IF c.acq = "gp_hedge" THEN UNION { BestAll(c, e)[i] : i \in 1..3 }
                 ELSE Best(c, c.acq, e.y4, e.rows)
Judge(c, t, e) ==
    << Cl("A02", "CandidateCount", e.count = c.npts) >>
    \o When(e.sugg >= 0,
       << Cl("A02", "SuggestionIsCandidate", e.sugg > 0),
          Cl("A02", "SuggestionIsOptimal", e.sugg \in Allowed(c, e)) >>)
    \o When(c.acq = "gp_hedge" /\ c.eta > 100 /\ e.sugg >= 0 /\ FitGains(t, e) # {},
       << Cl("O08", "LargestGainWins", e.sugg \in Suggestible(FitGains(t, e), BestAll(c, e))) >>)
    \o When(c.acq = "gp_hedge" /\ e.sugg >= 0,
       << Cl("O08", "SuggestionIsProposal", e.sugg \in Allowed(c, e)) >>)

FitClauses(c, t, e) ==
    LET cl == Judge(c, t, e) IN
    cl
    \o When(c.refined > 0, << Cl("A02", "RefinementsAsRequested", e.starts = c.refined) >>)
    \o When(t[e.o].cp,
       Map(cl, LAMBDA x : Cl("O07", "Copy" \o x.c, x.ok))
       \o When(c.refined > 0, << Cl("O07", "CopyRefinements", e.starts = c.refined) >>))

\* real surrogates: costs of the suggestion and of every candidate
ChoiceClauses(e) ==
    << Cl("A02", IF e.exact THEN "BestCandidateTaken" ELSE "RefinedFromCandidates",
          e.cost <= MinSeq(e.cands) + e.tol) >>

\* the arm which is ahead by two (eight quarters) or more, if any
Ahead(G) == { i \in 1..3 : \A g \in G : \A j \in (1..3) \ {i} : g[i] - g[j] >= 8 }
Telling(G, best) == /\ G # {} /\ Ahead(G) # {}
                    /\ \A i \in Ahead(G) : \A j \in (1..3) \ {i} : best[i] \cap best[j] = {}
RECURSIVE SumOf(_, _, _)
SumOf(t, f, k) == IF k = 0 THEN 0 ELSE (IF f = "n" THEN t[k].n ELSE t[k].hits) + SumOf(t, f, k - 1)
\* with eta = 0 all proposals are alike, by default an arm that is ahead by two
\* is taken with a probability above 0.78
ShareClauses(c, t, e) ==
    LET n == SumOf(t, "n", c.chains)
        h == SumOf(t, "hits", c.chains) IN
    When(n >= 30,
         IF c.eta = 0 THEN << Cl("O08", "AlikeWithoutEta", h * 4 <= n * 3) >>
         ELSE << Cl("O08", "AheadMoreOften", h * 5 >= n * 2) >>)

AClauses(c, t, e) ==
    CASE e.op = "val" -> ValClauses(e)
      [] e.op = "ps" -> PsClauses(e)
      [] e.op = "real" -> RealClauses(e)
      [] e.op = "tail" -> TailClauses(e)
      [] e.op = "fit" -> FitClauses(c, t, e)
      [] e.op = "choice" -> ChoiceClauses(e)
      [] e.op = "shares" -> ShareClauses(c, t, e)
      [] OTHER -> << >>
APost(c, t, e) ==
    CASE e.op = "fit" /\ c.acq = "gp_hedge" ->
            LET G == FitGains(t, e)
                b == BestAll(c, e)
                tell == e.sugg > 0 /\ Telling(G, b) IN
            [t EXCEPT ![e.o] = [@ EXCEPT !.G = G, !.best = b, !.n = @ + (IF tell THEN 1 ELSE 0),
                !.hits = @ + (IF tell /\ \E i \in Ahead(G) : e.sugg \in b[i] THEN 1 ELSE 0)]]
      [] e.op = "copy" -> [t EXCEPT ![e.to] = [t[e.o] EXCEPT !.best = << >>, !.cp = TRUE]]
      [] OTHER -> t
INSTANCE TraceRunner WITH InitState <- AInit, Post <- APost, Clauses <- AClauses
Spec == TInit /\ [][TNext]_<<ti, l, st, cnt>>
=============================================================================
