----------------------------- MODULE MCOptimizer -----------------------------
(* The design explored by TLC: one or more optimizers over a small set of
   points and values, every order of calls.  `ops` records the calls; it is
   hidden by a VIEW when the design is model checked and printed when
   behaviours are generated for replay against the code.                    *)
EXTENDS OptimizerCore, Json

CONSTANTS NINIT, HASMODEL, QCAP, GEN, PTS, VALS, MAXOBS, MAXOPS, MAXOPT, GENERATE

VARIABLES opts, ops, evs
vars == << opts, ops, evs >>
view == << opts, evs >>

C == [ninit |-> NINIT, gen |-> IF GEN THEN [i \in 1..NINIT |-> i] ELSE << >>,
      hasModel |-> HASMODEL, q |-> QCAP, ps |-> FALSE, stub |-> TRUE,
      cont |-> FALSE]

Init == opts = << NewOpt >> /\ ops = << >> /\ evs = [last |-> "init", o |-> 1]

Log(op) == /\ Len(ops) < MAXOPS
           /\ ops' = IF GENERATE THEN Append(ops, op) ELSE Append(ops, 0)
           /\ evs' = [last |-> op.k, o |-> op.o]

Obs(x, y) == [x |-> x, y |-> y, t |-> 0]
Pts(o) == IF o.sugg # 0 THEN {o.sugg} ELSE PTS
\* what a single request may answer
Answers(o) == CASE Phase(C, o) = "design" /\ GEN -> { C.gen[Len(o.hist) + 1] }
                [] OTHER -> Pts(o)

Ask(i) == /\ IF AskFails(C, opts[i]) THEN UNCHANGED opts     \* an error
             ELSE \E x \in Answers(opts[i]) :
                     opts' = [opts EXCEPT ![i] = AskPost(C, @, x)]
          /\ Log([k |-> "ask", o |-> i])
AskN(i, n, s) ==
    /\ \/ CacheHit(opts[i], n, s) /\ UNCHANGED opts
       \/ ~CacheHit(opts[i], n, s) /\ BatchFails(C, opts[i]) /\ UNCHANGED opts
       \/ /\ ~CacheHit(opts[i], n, s) /\ ~BatchFails(C, opts[i])
          /\ \E xs \in [1..n -> PTS] :
               /\ \A k \in 1..n : (GEN /\ Len(opts[i].hist) + k <= NINIT)
                                     => xs[k] = C.gen[Len(opts[i].hist) + k]
               /\ opts' = [opts EXCEPT ![i] = AskNPost(@, n, s, xs)]
    /\ Log([k |-> "askn", o |-> i, n |-> n, s |-> s])
Tell(i, m, fit) ==
    /\ Len(opts[i].hist) + m <= MAXOBS
    /\ \E xs \in [1..m -> PTS], ys \in [1..m -> VALS] :
         opts' = [opts EXCEPT ![i] =
                    TellPost(C, @, [k \in 1..m |-> Obs(xs[k], ys[k])], fit)]
    /\ Log([k |-> "tell", o |-> i, m |-> m, fit |-> fit])
\* k iterations of asking and telling
Run(i, k) ==
    /\ ~AskFails(C, opts[i]) /\ Len(opts[i].hist) + k <= MAXOBS
    /\ \E xs \in [1..k -> PTS], ys \in [1..k -> VALS] :
         /\ \A j \in 1..k : (GEN /\ Len(opts[i].hist) + j <= NINIT)
                               => xs[j] = C.gen[Len(opts[i].hist) + j]
         /\ opts' = [opts EXCEPT ![i] =
                       RunPost(C, @, [j \in 1..k |-> Obs(xs[j], ys[j])])]
    /\ Log([k |-> "run", o |-> i, m |-> k])
Copy(i) == /\ Len(opts) < MAXOPT
           /\ opts' = Append(opts, CopyPost(C, opts[i]))
           /\ Log([k |-> "copy", o |-> i])
Refresh(i) == /\ opts' = [opts EXCEPT ![i] = RefreshPost(C, @)]
              /\ Log([k |-> "refresh", o |-> i])
Bad(i) == UNCHANGED opts /\ Log([k |-> "bad", o |-> i])
Result(i) == opts[i].hist # << >> /\ UNCHANGED opts /\ Log([k |-> "result", o |-> i])

Next == \E i \in DOMAIN opts :
          \/ Ask(i)
          \/ \E n \in {2, 3}, s \in {"cl_min", "cl_mean", "cl_max"} :
                (s = "cl_mean" \/ n = 2) /\ AskN(i, n, s)
          \/ \E m \in {1, 2} : Tell(i, m, TRUE)
          \/ Tell(i, 1, FALSE)
          \/ Run(i, 2)
          \/ Copy(i) \/ Refresh(i) \/ Bad(i) \/ Result(i)

Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ invariants
TypeOK == \A i \in DOMAIN opts : Len(opts[i].hist) <= MAXOBS
\* O01 no surrogate before the initial design has been told
NoModelBeforeDesign ==
    \A i \in DOMAIN opts : (opts[i].models # << >>) =>
        HASMODEL /\ Len(opts[i].hist) >= NINIT
\* O06 surrogates are ordered, trained on prefixes, and bounded
ModelsArePrefixes ==
    \A i \in DOMAIN opts : LET ms == opts[i].models IN
        /\ Sorted(ms)
        /\ \A k \in DOMAIN ms : ms[k] >= Max2(NINIT, 1) /\ ms[k] <= Len(opts[i].hist)
QueueBounded == QCAP > 0 => \A i \in DOMAIN opts : Len(opts[i].models) <= QCAP
\* O01 a suggestion can be remembered only when it came from a surrogate
SuggestionHasModel ==
    \A i \in DOMAIN opts : opts[i].sugg # 0 => opts[i].models # << >>
\* O01/O05 a batch never contradicts the generated design
BatchFollowsDesign ==
    GEN => \A i \in DOMAIN opts : LET o == opts[i] IN
        \A k \in DOMAIN o.batch.pts :
            Len(o.hist) + k <= NINIT => o.batch.pts[k] = C.gen[Len(o.hist) + k]

\* ------------------------------------------------------ action properties
\* O02 history only grows at the end
HistoryAppendOnly ==
    [][\A i \in DOMAIN opts : IsPrefixOf(opts[i].hist, opts'[i].hist)]_vars
\* O03, O04 only a tell changes a history or a surrogate
OnlyTellLearns ==
    [][\A i \in DOMAIN opts :
         (opts'[i].hist # opts[i].hist \/ opts'[i].models # opts[i].models)
            => evs'.last \in {"tell", "run"} /\ evs'.o = i]_vars
\* O04 a pending batch or suggestion changes only when something is told or
\* refreshed, or another batch is requested
StableSuggestion ==
    [][\A i \in DOMAIN opts :
         /\ (opts[i].sugg # 0 /\ opts'[i].sugg # opts[i].sugg)
               => evs'.last \in {"tell", "run", "refresh"} /\ evs'.o = i
         /\ (opts[i].batch # NoBatch /\ opts'[i].batch # opts[i].batch)
               => evs'.last \in {"tell", "run", "refresh", "askn"} /\ evs'.o = i]_vars
TellInvalidates ==
    [][evs'.last \in {"tell", "run"} =>
         opts'[evs'.o].batch = NoBatch]_vars
\* O07 calls on one optimizer never change another
Independent ==
    [][\A i \in DOMAIN opts : evs'.o # i => opts'[i] = opts[i]]_vars
\* O07 a copy starts from the same history
CopyFaithful ==
    [][evs'.last = "copy" => opts'[Len(opts')].hist = opts[evs'.o].hist]_vars

\* ------------------------------------------------------------ generation
Emit == (GENERATE /\ Len(ops) = MAXOPS) => PrintT("@G " \o ToJson(ops))
=============================================================================
