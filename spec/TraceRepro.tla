----------------------------- MODULE TraceRepro -----------------------------
(* Judges recorded answers and states of objects by their lineages.          *)
EXTENDS ReproCore, Json, IOUtils
VARIABLES ti, l, st, cnt
Traces == ndJsonDeserialize(IOEnv.TRACES)

\* ans, dig: << lineage, id >> seen so far; rest: objects restored from a copy
RInit(c) == [obj |-> [i \in 1..c.objs |-> Nothing], file |-> [i \in 1..c.files |-> Nothing],
             rest |-> {}, ans |-> {}, dig |-> {}]
Target(e) == CASE e.op \in {"copy", "load"} -> e.b [] OTHER -> e.a
Objects(t, e) ==
    CASE e.op = "new" -> [t.obj EXCEPT ![e.a] = Made(e.b, e.func)]
      [] e.op = "do" -> [t.obj EXCEPT ![e.a] = Called(@, e.b)]
      [] e.op = "copy" -> [t.obj EXCEPT ![e.b] = Restored(t.obj[e.a])]
      [] e.op = "load" -> [t.obj EXCEPT ![e.b] = Restored(t.file[e.a])]
      [] OTHER -> t.obj
\* e.digs[i]: state of object i, 0 if it does not exist
Live(o, e) == { i \in DOMAIN o : o[i].lin # << >> /\ e.digs[i] # 0 }
StatesFit(known, o, e, which) ==
    \A i \in which \cap Live(o, e) :
        /\ \A p \in known : p[1] = o[i].lin => p[2] = e.digs[i]
        /\ \A j \in Live(o, e) : o[i].lin = o[j].lin => e.digs[i] = e.digs[j]
RClauses(c, t, e) ==
    LET o == Objects(t, e)
        to == Target(e) IN
    << Cl("R01", "GlobalStateUntouched", e.glob) >>
    \o When(e.op = "do",
       << Cl(IF e.a \in t.rest THEN "D01" ELSE "R01",
             IF e.a \in t.rest THEN "RestoredContinuesAlike" ELSE "SameCallsSameAnswers",
             \A p \in t.ans : p[1] = o[e.a].lin => p[2] = e.out),
          Cl(IF e.a \in t.rest THEN "D01" ELSE "R01", "SameCallsSameState",
             StatesFit(t.dig, o, e, {e.a})) >>)
    \o When(e.op = "new", << Cl("R01", "SameSettingsSameState", StatesFit(t.dig, o, e, {e.a})) >>)
    \o When(e.op \in {"copy", "load"},
       << Cl("D01", "RestoredIsEqual", StatesFit(t.dig, o, e, {to})) >>)
    \o When(e.op = "load",
       << Cl("D01", "ObjectiveStoredAsAsked", e.funcs[to] = o[to].func) >>)
    \o << Cl("D01", "OthersUntouched", StatesFit(t.dig, o, e, DOMAIN o \ {to})
             /\ \A i \in Live(o, e) \ {to} : e.funcs[i] = o[i].func) >>
    \o When(e.op = "dump", << Cl("D01", "DumpLeavesTheResult", StatesFit(t.dig, o, e, {e.a})
                                 /\ e.funcs[e.a] = o[e.a].func /\ e.ok) >>)
RPost(c, t, e) ==
    LET o == Objects(t, e)
        to == Target(e) IN
    [t EXCEPT !.obj = o,
              !.file = IF e.op = "dump" THEN [@ EXCEPT ![e.b] = Dumped(t.obj[e.a], e.store)] ELSE @,
              !.rest = IF e.op \in {"copy", "load"} THEN @ \cup {to}
                       ELSE IF e.op = "new" THEN @ \ {to} ELSE @,
              !.ans = IF e.op = "do" THEN @ \cup {<< o[e.a].lin, e.out >>} ELSE @,
              !.dig = @ \cup { << o[i].lin, e.digs[i] >> : i \in Live(o, e) }]
INSTANCE TraceRunner WITH InitState <- RInit, Post <- RPost, Clauses <- RClauses
Spec == TInit /\ [][TNext]_<<ti, l, st, cnt>>
=============================================================================
