------------------------------ MODULE MCConfig ------------------------------
(* Every request: the table of what is built, and each request for replay.   *)
EXTENDS ConfigCore, Json
CONSTANTS GENERATE
VARIABLES op, r

Ests == { [form |-> "name", kind |-> k, style |-> s] :
             k \in {"GP", "RF", "ET", "GBRT", "DUMMY", "BAD"}, s \in {"upper", "lower", "mixed"} }
        \cup { [form |-> f, kind |-> k, style |-> "upper"] :
             f \in {"instance", "wrapped"}, k \in {"GP", "GPH", "RF", "ET", "GBRT", "STUB"} }
        \cup { [form |-> "junk", kind |-> k, style |-> "upper"] : k \in {"classifier", "object", "number", "class"} }
Builds == { [form |-> e.form, kind |-> e.kind, style |-> e.style, acq |-> a, how |-> h, space |-> s] :
              e \in Ests, a \in Acqs \cup {"ei", "GP_HEDGE", "UCB"},
              h \in {"auto", "lbfgs", "sampling", "LBFGS", "bfgs"}, s \in {"real", "mixed", "mostly", "cats"} }
\* combinations nobody has a use for
Sensible(b) == /\ b.form = "wrapped" => PerSecond(b)
               /\ b.kind = "DUMMY" => ~PerSecond(b)
               /\ b.kind = "STUB" => b.how \in {"sampling", "bfgs"}
               /\ b.kind = "GPH" => b.space = "cats"
               /\ (b.kind = "GP" /\ b.form # "name") => b.space # "cats"
Gens == { [form |-> "name", kind |-> k, style |-> s] :
            k \in Designs \cup {"BAD"}, s \in {"upper", "lower", "mixed"} }
        \cup { [form |-> "instance", kind |-> k, style |-> "upper"] : k \in Designs \ {"RANDOM"} }
        \cup { [form |-> "junk", kind |-> k, style |-> "upper"] : k \in {"number", "class", "list"} }
Counts == { [n |-> n, dep |-> d, q |-> q] : n \in {0, 1, 3, 5, -1}, d \in {NotGiven, 0, 2, 4, -2},
            q \in {"none", "two", "float"} }

Init == \/ op = "build" /\ r \in { b \in Builds : Sensible(b) }
        \/ op = "design" /\ r \in Gens
        \/ op = "count" /\ r \in Counts
Next == UNCHANGED << op, r >>
Spec == Init /\ [][Next]_<< op, r >>

Build(P) == op = "build" => P
AutoIsAlwaysPossible ==
    Build(r.how = "auto" /\ Valid([r EXCEPT !.how = "sampling"]) => Valid(r))
SamplingIsAlwaysPossible ==
    Build(Valid(r) => Valid([r EXCEPT !.how = "sampling"]))
RefinedOnlyWithGradients ==
    Build(Valid(r) /\ Method(r) = "lbfgs" => HasGradients(r))
SpellingDoesNotMatter ==
    Build(\A s \in {"upper", "lower", "mixed"} : Valid([r EXCEPT !.style = s]) = Valid(r))
Emit == GENERATE => PrintT("@G " \o ToJson([op |-> op, r |-> r]))
=============================================================================
