----------------------------- MODULE TraceSearch -----------------------------
(* Judges recorded searches.                                                 *)
EXTENDS SearchCore, Json, IOUtils
VARIABLES ti, l, st, cnt
Traces == ndJsonDeserialize(IOEnv.TRACES)

\* last: rows of the previous complete fit of the same search
SInit(c) == [s |-> Start(c), last |-> << >>]
Scores(e, id) == LET k == CHOOSE k \in DOMAIN e.scores : e.scores[k][1] = id IN e.scores[k][2]
Cost(e, id) == -Mean(Scores(e, id))
CostsOf(e, ids) == [i \in DOMAIN ids |-> Cost(e, ids[i])]
Count(seq, v) == Cardinality({ i \in DOMAIN seq : seq[i] = v })
\* every candidate of a batch is fitted once per split, and nothing else is
FitsMatch(c, fits, ids) ==
    /\ \A i \in DOMAIN ids : Count(fits, ids[i]) = c.splits * Count(ids, ids[i])
    /\ \A i \in DOMAIN fits : \E k \in DOMAIN ids : ids[k] = fits[i]

CbState(c, t, e) ==
    IF t.s.phase = "round"
    THEN LET new == Drop(e.xs, Len(t.s.obs[t.s.sp])) IN Round(c, t.s, new, CostsOf(e, new))
    ELSE t.s
CbClauses(c, t, e) ==
    LET first == t.s.phase = "round"
        new == IF first THEN Drop(e.xs, Len(t.s.obs[t.s.sp])) ELSE << >>
        s == CbState(c, t, e) IN
    << Cl("B01", "CallbackInOrder", s.phase = "cb" /\ s.cb = e.i) >>
    \o When(first,
       << Cl("B01", "BatchSize", Len(new) = BatchSize(c, t.s)),
          Cl("B01", "EachCandidateOncePerSplit", FitsMatch(c, e.fits, new)) >>)
    \o When(~first, << Cl("B01", "EachCandidateOncePerSplit", e.fits = << >>) >>)
    \o << Cl("B01", "ResultSoFar", e.xs = s.obs[s.sp]),
          Cl("B02", "NegatedMeanScores", e.ys = s.ys[s.sp]),
          Cl("B02", "CandidatesFromTheirSpace", e.ok),
          Cl("B02", "BestSoFar", Len(e.ys) > 0 /\ e.best = e.xs[FirstArgMin(e.ys)]
                                          /\ e.fun = e.ys[FirstArgMin(e.ys)]) >>

EndClauses(c, t, e) ==
    LET s == t.s
        all == IF c.ncb = 0 THEN CatAll([k \in DOMAIN e.opt |-> e.opt[k].xs]) ELSE Rows(s)
        costs == CostsOf(e, e.rows) IN
    << Cl("B01", "BudgetUsed", IF c.ncb = 0 THEN Len(e.rows) = Total(c) ELSE s.phase = "done"),
       Cl("B01", "TotalIterations", e.total = Total(c)),
       Cl("B01", "RowsAreTheEvaluations", e.rows = all),
       Cl("B01", "ResultPerSubspace", Len(e.opt) = Len(c.iters)
            /\ \A k \in DOMAIN e.opt : IF c.ncb = 0 THEN Len(e.opt[k].xs) = c.iters[k]
                                       ELSE e.opt[k].xs = s.obs[k]),
       Cl("B01", "EachCandidateOncePerSplit", c.ncb > 0 \/ FitsMatch(c, e.fits, e.rows)),
       Cl("B02", "NegatedMeanScores",
            \A k \in DOMAIN e.opt : e.opt[k].ys = CostsOf(e, e.opt[k].xs)),
       Cl("B02", "MeanScores", e.means = [i \in DOMAIN e.rows |-> -costs[i]]),
       Cl("B02", "CandidatesFromTheirSpace", e.ok),
       \* scores do not depend on the data: those of the training are the same
       Cl("B02", "Ranks", e.rank = [i \in DOMAIN e.rows |-> Rank(costs, i)] /\ e.trank = e.rank),
       Cl("B02", "CallerUnchanged", e.same),
       Cl("B02", "FitParametersPassed", e.passed) >>
    \o When(Len(e.rows) > 0,
       << Cl("B02", "BestCandidate", e.bi = BestRow(costs) /\ e.bp = e.rows[BestRow(costs)]
                                     /\ e.bs = -costs[BestRow(costs)]),
          Cl("B02", "RefitWithTheBest", e.refits = IF c.refit THEN << e.rows[BestRow(costs)] >> ELSE << >>) >>)
    \o When(c.again /\ t.last # << >>,
       << Cl("B01", "FitAgainIsTheSame", e.rows = t.last) >>)

SClauses(c, t, e) ==
    CASE e.op = "cb" -> CbClauses(c, t, e)
      [] e.op = "end" -> EndClauses(c, t, e)
      [] e.op = "raised" -> << Cl("B01", "ErrorsOfTheEstimatorSurface", e.boom /\ c.raises) >>
SPost(c, t, e) ==
    CASE e.op = "cb" -> [t EXCEPT !.s = Callback(c, CbState(c, t, e), e.ret)]
      [] e.op = "end" -> [s |-> Start(c), last |-> e.rows]
      [] e.op = "raised" -> [t EXCEPT !.s = Start(c)]
INSTANCE TraceRunner WITH InitState <- SInit, Post <- SPost, Clauses <- SClauses
Spec == TInit /\ [][TNext]_<<ti, l, st, cnt>>
=============================================================================
