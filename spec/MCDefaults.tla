----------------------------- MODULE MCDefaults -----------------------------
(* Every use of a function with one, two or all of its settings left out.    *)
EXTENDS DefaultsCore, Json, SequencesExt
CONSTANTS GENERATE
VARIABLES fn, omit

Init == /\ fn \in Functions
        /\ omit \in { S \in SUBSET Settings(fn) : Cardinality(S) \in {1, 2, Cardinality(Settings(fn))} }
Next == UNCHANGED << fn, omit >>
Spec == Init /\ [][Next]_<< fn, omit >>

TablesAgree == DOMAIN Other = Functions /\ \A f \in Functions : DOMAIN Other[f] = Settings(f)
ThirdIsAnother == \A f \in DOMAIN Third : \A s \in DOMAIN Third[f] :
    /\ f \in Functions /\ s \in Settings(f)
    /\ Third[f][s] \notin { Default[f][s], Other[f][s] }
OtherIsOther == \A s \in omit : Other[fn][s] # Default[fn][s]
MinimisersAgree ==
    fn \in Minimisers => \A g \in Minimisers : \A s \in (omit \cap Settings(g)) \ {"acq_func", "acq_optimizer"} :
        Default[fn][s] = Default[g][s]
LoopOfOptimizer ==
    fn \in Minimisers => \A s \in (omit \cap Settings("Optimizer")) \ {"acq_func", "acq_optimizer", "base_estimator"} :
        Default[fn][s] = Default.Optimizer[s]
Use == [ fn |-> fn, omit |-> SetToSeq(omit), default |-> Default[fn], other |-> Other[fn],
         third |-> IF fn \in DOMAIN Third THEN Third[fn] ELSE << >> ]
Emit == GENERATE => PrintT("@G " \o ToJson(Use))
=============================================================================
