---------------------------- MODULE TraceOptimizer ----------------------------
(* Judges recorded executions of Optimizer objects against OptimizerCore.    *)
EXTENDS OptimizerCore, Json, IOUtils

VARIABLES ti, l, st, cnt
Traces == ndJsonDeserialize(IOEnv.TRACES)

\* Ghost state: one OptimizerCore state per live optimizer plus what is only
\* needed to state a clause (candidates of the last surrogate, the batch that
\* was invalidated, whether a rejected call came last) and all results.
Ghost(o) == [o |-> o, cands |-> {}, stale |-> << >>, bad |-> FALSE]
OInit(c) == [g |-> << Ghost(NewOpt) >>, res |-> << >>]

Cands(g, e) == IF e.cands = << >> THEN g.cands ELSE Range(e.cands)

OPost(c, s, e) ==
    LET g == s.g[e.o] o == g.o
        upd(g2) == [s EXCEPT !.g[e.o] = g2]
        stale == IF o.batch = NoBatch THEN g.stale ELSE o.batch.pts
    IN CASE e.op = "ask" ->
            IF e.err # "" THEN s
            ELSE upd([g EXCEPT !.o = AskPost(c, o, e.resp)])
         [] e.op = "askn" ->
            IF e.err # "" \/ CacheHit(o, e.n, e.s) THEN s
            ELSE upd([g EXCEPT !.o = AskNPost(o, e.n, e.s, e.resp)])
         [] e.op = "tell" ->
            [upd([g EXCEPT !.o = TellPost(c, o, e.obs, e.fit),
                           !.cands = Cands(g, e), !.stale = stale,
                           !.bad = FALSE])
             EXCEPT !.res = Append(@, [n |-> Len(o.hist) + Len(e.obs),
                                       h |-> o.hist \o e.obs, nm |-> e.res.nm])]
         [] e.op = "run" /\ AskFails(c, o) -> s
         [] e.op = "run" ->
            [upd([g EXCEPT !.o = RunPost(c, o, e.obs), !.cands = Cands(g, e),
                           !.stale = stale, !.bad = FALSE])
             EXCEPT !.res = Append(@, [n |-> Len(o.hist) + Len(e.obs),
                                       h |-> o.hist \o e.obs, nm |-> e.res.nm])]
         [] e.op = "result" ->
            IF o.hist = << >> THEN s
            ELSE [s EXCEPT !.res = Append(@, [n |-> Len(o.hist), h |-> o.hist,
                                              nm |-> e.res.nm])]
         [] e.op = "copy" ->
            [s EXCEPT !.g = Append(@, [Ghost(CopyPost(c, o)) EXCEPT
                                        !.cands = Range(e.cands)])]
         [] e.op = "refresh" ->
            upd([g EXCEPT !.o = RefreshPost(c, o), !.cands = Cands(g, e),
                          !.stale = stale])
         [] e.op = "bad" -> upd([g EXCEPT !.bad = TRUE])
         [] OTHER -> s

\* ------------------------------------------------- observed against ghost
HistIs(c, o, b) ==
    /\ b.xs = Xs(o.hist)
    /\ b.ys = Ys(o.hist)
TimesAre(o, b) ==
    /\ Len(b.ts) = Len(o.hist)
    /\ \A i \in DOMAIN b.ts : Near(b.ts[i], o.hist[i].t, 1)
Trained(c, h, k, m) ==
    /\ m.xs = Xs(Take(h, k))
    /\ m.ys = Ys(Take(h, k))
TrainedTimes(h, k, m) ==
    /\ Len(m.ts) = Min2(k, Len(h))
    /\ \A i \in DOMAIN m.ts : Near(m.ts[i], h[i].t, 1)
ModelsAre(c, o, b) ==
    /\ b.nm = Len(o.models)
    /\ c.stub => /\ Len(b.models) = Len(o.models)
                 /\ \A i \in DOMAIN b.models :
                        Trained(c, o.hist, o.models[i], b.models[i])
FitIs(c, h, f) == f.xs = Xs(h) /\ f.ys = Ys(h)
Others(s, e) == { j \in DOMAIN s.g : j # e.o }
OthersKept(c, s, e) ==
    \A j \in Others(s, e) : /\ HistIs(c, s.g[j].o, e.all[j])
                            /\ ModelsAre(c, s.g[j].o, e.all[j])
OldKept(s, e) ==
    /\ Len(e.old) = Len(s.res)
    /\ \A i \in DOMAIN s.res :
          LET r == s.res[i] b == e.old[i] IN
          /\ b.xs = Xs(r.h) /\ b.ys = Ys(r.h) /\ b.nm = r.nm
          /\ b.x = r.h[BestIndex(r.h)].x /\ b.fun = r.h[BestIndex(r.h)].y

Kept(c, s, e, p) ==
    << Cl(p, "HistoryKept", HistIs(c, s.g[e.o].o, e.all[e.o])),
       Cl(p, "ModelsKept", ModelsAre(c, s.g[e.o].o, e.all[e.o])) >>

\* -------------------------------------------------------------- clauses
AskClauses(c, s, e) ==
    LET g == s.g[e.o] o == g.o ph == Phase(c, o)
        designed == ph = "design" /\ c.gen # << >>
        rand == ph # "model" /\ ~designed
        known == ph = "model" /\ o.sugg # 0
    IN IF AskFails(c, o)
       THEN << Cl("O01", "AskWithoutModelIsAnError", e.err = "RuntimeError") >>
            \o Kept(c, s, e, "O04")
       ELSE << Cl("O01", "AskAnswers", e.err = "") >>
         \o When(designed, << Cl("O01", "NextDesignPoint",
                              e.resp = c.gen[Len(o.hist) + 1]) >>)
         \o When(rand /\ c.cont, << Cl("O01", "FreshRandomPoint",
                              e.resp # o.rnd /\ e.resp \notin Range(Xs(o.hist))) >>)
         \o When(ph = "model" /\ c.stub,
                 << Cl("O01", "SuggestionFromSurrogate", e.resp \in g.cands) >>)
         \o When(ph # "model", << Cl("O01", "NoSurrogateYet", e.all[e.o].nm = 0) >>)
         \o << Cl("S05", "SuggestionInSpace", e.insp) >>
         \o When(known, << Cl("O04", "SuggestionStable", e.resp = o.sugg) >>)
         \o When(g.bad /\ known, << Cl("O03", "SuggestionSurvives", e.resp = o.sugg) >>)
         \o When(g.bad /\ designed, << Cl("O03", "DesignSurvives",
                              e.resp = c.gen[Len(o.hist) + 1]) >>)
         \o When(c.stub, << Cl("O04", "AskTrainsNothing", e.fits = << >>) >>)
         \o Kept(c, s, e, "O04")

AskNClauses(c, s, e) ==
    LET g == s.g[e.o] o == g.o m == Len(o.hist)
        hit == CacheHit(o, e.n, e.s)
        fresh == ~hit /\ e.err = ""
        inDesign == { i \in 1..e.n : m + i <= c.ninit }
        modelled == { i \in 1..e.n : PhaseAt(c, m + i - 1) = "model" }
        rand == IF c.gen = << >> \/ ~c.hasModel
                THEN { i \in 1..e.n : PhaseAt(c, m + i - 1) # "model" } \ 
                     (IF c.gen = << >> THEN {} ELSE inDesign)
                ELSE {}
    IN IF BatchFails(c, o) /\ ~hit
       THEN << Cl("O01", "AskWithoutModelIsAnError", e.err = "RuntimeError") >>
            \o Kept(c, s, e, "O05")
       ELSE << Cl("O05", "BatchAnswers", e.err = ""),
               Cl("O05", "BatchSize", Len(e.resp) = e.n) >>
         \o When(Len(e.resp) = e.n /\ e.err = "",
              << Cl("S05", "BatchInSpace", e.insp) >>
              \o When(hit, << Cl("O04", "BatchStable", e.resp = o.batch.pts) >>)
              \o When(hit /\ g.bad, << Cl("O03", "BatchSurvives", e.resp = o.batch.pts) >>)
              \o When(fresh /\ c.gen # << >> /\ inDesign # {},
                   << Cl("O01", "BatchFollowsDesign",
                         \A i \in inDesign : e.resp[i] = c.gen[m + i]) >>)
              \o When(fresh /\ c.cont /\ rand # {},
                   << Cl("O05", "RandomBatchDistinct",
                         \A i \in rand, j \in 1..e.n :
                              i # j => e.resp[i] # e.resp[j]) >>)
              \o When(fresh /\ c.cont /\ rand # {} /\ g.stale # << >>,
                   << Cl("O04", "BatchRecomputed",
                         \A i \in rand : e.resp[i] \notin Range(g.stale)) >>)
              \o When(fresh /\ c.stub /\ (modelled \ {1}) # {},
                   << Cl("O05", "LiarModelForEveryPoint",
                         \A i \in modelled \ {1} : \E f \in DOMAIN e.fits :
                             e.fits[f].xs = Xs(o.hist) \o Take(e.resp, i - 1)),
                      Cl("O04", "BatchFromCurrentHistory",
                         \A f \in DOMAIN e.fits :
                             IsPrefixOf(Xs(o.hist), e.fits[f].xs)) >>)
              \o When(fresh /\ c.stub /\ (modelled \ {1}) # {},
                   << Cl("O04", "BatchRestarts",
                         \E f \in DOMAIN e.fits : IsPrefixOf(Xs(o.hist), e.fits[f].xs)) >>)
              \o When(fresh /\ c.stub /\ e.fits # << >>,
                   << Cl("O05", "LiarTrainingSets",
                         \A f \in DOMAIN e.fits :
                             LiarFit(c, o, e.s, e.resp, e.fits[f])) >>
                   \o When(c.ps, << Cl("O05", "LiarTimes",
                         \A f \in DOMAIN e.fits : LiarFitTimes(c, o, e.s, e.fits[f])) >>))
              \o When(fresh /\ c.stub /\ modelled # {},
                   << Cl("O05", "BatchFromSurrogate",
                         \A i \in modelled : e.resp[i] \in g.cands \cup Range(e.cands)) >>)
              \o When(c.stub /\ modelled = {},
                   << Cl("O01", "NoSurrogateDuringDesign",
                         e.n + m < c.ninit \/ ~c.hasModel => e.fits = << >>) >>))
         \o Kept(c, s, e, "O04") \o Kept(c, s, e, "O05")

ResultClauses(c, h, r) ==
    << Cl("O02", "ResultHistory", ResultOK(h, r)),
       Cl("O02", "ResultIsFirstMinimum", BestOK(h, r)) >>
    \o When(c.ps, << Cl("O09", "ResultTimes",
            /\ Len(r.ts) = Len(h)
            /\ \A i \in DOMAIN r.ts : Near(r.ts[i], h[i].t, 1)),
                     Cl("O09", "ResultValuesWithoutTimes",
            r.ys = Ys(h) /\ BestOK(h, r)) >>)

TellClauses(c, s, e, o2) ==
    LET o == s.g[e.o].o
        b == e.all[e.o]
        fitted == IF e.op = "run" THEN o2.models # << >> ELSE Fits(c, o2.hist, e.fit)
        design == Len(o2.hist) < c.ninit
    IN << Cl("O02", "TellAccepted", e.err = ""),
          Cl("O02", "HistoryAppended", HistIs(c, o2, b)) >>
       \o When(c.ps, << Cl("O09", "TimesAreLogged", TimesAre(o2, b)) >>)
       \o When(e.err = "", ResultClauses(c, o2.hist, e.res))
       \o When(design \/ ~c.hasModel,
            << Cl("O01", "NoSurrogateDuringDesign", b.nm = 0 /\ e.fits = << >>) >>)
       \o << Cl("O06", "ModelsAre", ModelsAre(c, o2, b)) >>
       \o When(c.q > 0, << Cl("O06", "QueueBounded", b.nm <= c.q) >>)
       \o When(c.stub /\ fitted /\ e.op = "tell",
            << Cl("O06", "TrainedOnEverything",
                  e.fits # << >> /\ \A f \in DOMAIN e.fits :
                                        FitIs(c, o2.hist, e.fits[f])),
               Cl("O01", "SurrogateOnceDesignIsDone", e.fits # << >> /\ b.nm > 0) >>
            \o When(c.ps, << Cl("O09", "TimesTrainedSeparately",
                  \A f \in DOMAIN e.fits :
                     TrainedTimes(o2.hist, Len(o2.hist), e.fits[f])
                     /\ e.fits[f].ys = Ys(o2.hist)) >>))
       \o When(c.stub /\ e.op = "tell" /\ ~e.fit,
            << Cl("O06", "NoTrainingOnRequest", e.fits = << >>) >>)
       \o When(e.op = "run",
            << Cl("O01", "RunFollowsDesign",
                  \A i \in DOMAIN e.obs :
                     (c.gen # << >> /\ Len(o.hist) + i <= c.ninit)
                        => e.obs[i].x = c.gen[Len(o.hist) + i]),
               Cl("O02", "RunEvaluatesOncePerIteration", Len(e.obs) = e.k) >>)

SpecificClauses(c, s, e) ==
    LET o == s.g[e.o].o s2 == OPost(c, s, e) o2 == s2.g[e.o].o IN
    CASE e.op = "ask"  -> AskClauses(c, s, e)
      [] e.op = "askn" -> AskNClauses(c, s, e)
      [] e.op = "run" /\ AskFails(c, o) ->
            << Cl("O01", "AskWithoutModelIsAnError", e.err = "RuntimeError"),
               Cl("O02", "RunEvaluatesOncePerIteration", e.obs = << >>) >>
            \o Kept(c, s, e, "O02")
      [] e.op \in {"tell", "run"} -> TellClauses(c, s, e, o2)
      [] e.op = "result" -> When(o.hist # << >>,
            << Cl("O02", "ResultAnswers", e.err = "") >>
            \o When(e.err = "", ResultClauses(c, o.hist, e.res)))
            \o Kept(c, s, e, "O02")
      [] e.op = "refresh" -> << Cl("O04", "RefreshAnswers", e.err = "") >>
            \o Kept(c, s, e, "O04")
      [] e.op = "copy" ->
            LET new == s2.g[Len(s2.g)].o b == e.all[Len(e.all)] IN
            << Cl("O07", "CopyAnswers", e.err = "") >>
            \o When(e.err = "",
                 << Cl("O07", "CopyHasHistory", HistIs(c, new, b)),
                    Cl("O07", "CopyHasSurrogate", ModelsAre(c, new, b)) >>
                 \o When(c.ps, << Cl("O07", "CopyHasTimes", TimesAre(new, b)) >>))
            \o Kept(c, s, e, "O07")
      [] e.op = "bad" ->
            << Cl("O03", "InvalidCallRaises", e.err # "") >>
            \o Kept(c, s, e, "O03")
            \o When(c.stub, << Cl("O03", "NothingTrained", e.fits = << >>) >>)
      [] OTHER -> << Cl("XXX", "UnknownOp", FALSE) >>

\* what holds after every event
GeneralClauses(c, s, e) ==
    When(Len(s.g) > 1, << Cl("O07", "OthersUnaffected", OthersKept(c, s, e)) >>)
    \o When(s.res # << >>, << Cl("O02", "OldResultsKept", OldKept(s, e)) >>)
    \o << Cl("O06", "BaseEstimatorUntouched", e.base) >>

OClauses(c, s, e) ==
    LET cl == SpecificClauses(c, s, e) IN
    cl
    \o When(e.o > 1, Map(cl, LAMBDA x : Cl("O07", "Copy" \o x.c, x.ok)))
    \o GeneralClauses(c, s, e)

INSTANCE TraceRunner WITH InitState <- OInit, Post <- OPost, Clauses <- OClauses
Spec == TInit /\ [][TNext]_<<ti, l, st, cnt>>
=============================================================================
