------------------------------ MODULE MCRepro ------------------------------
(* Objects with a hidden state: the seed and the number of random draws they
   made.  Calls draw; copies and files take both along; the surroundings use
   their own generator.                                                     *)
EXTENDS ReproCore, Json
CONSTANTS Objs, Keys, Calls, Files, MaxLen, GENERATE
VARIABLES obj, hidden, file, fhidden, log
vars == << obj, hidden, file, fhidden, log >>
H0 == [seed |-> 0, draws |-> 0, trail |-> << >>]
Init == /\ obj = [i \in 1..Objs |-> Nothing] /\ hidden = [i \in 1..Objs |-> H0]
        /\ file = [i \in 1..Files |-> Nothing] /\ fhidden = [i \in 1..Files |-> H0]
        /\ log = << >>
Live(i) == obj[i].lin # << >>
Log(op, a, b, c) == log' = Append(log, [op |-> op, a |-> a, b |-> b, c |-> c])
Next ==
    /\ Len(log) < MaxLen
    /\ \/ \E i \in 1..Objs, k \in 1..Keys :
            /\ obj' = [obj EXCEPT ![i] = Made(k, TRUE)]
            /\ hidden' = [hidden EXCEPT ![i] = [seed |-> k, draws |-> 0, trail |-> << >>]]
            /\ Log("new", i, k, 0) /\ UNCHANGED << file, fhidden >>
       \/ \E i \in 1..Objs, w \in 1..Calls :
            /\ Live(i)
            /\ obj' = [obj EXCEPT ![i] = Called(@, w)]
            /\ hidden' = [hidden EXCEPT ![i].draws = @ + w, ![i].trail = Append(@, hidden[i].draws)]
            /\ Log("do", i, w, 0) /\ UNCHANGED << file, fhidden >>
       \/ \E i, j \in 1..Objs :
            /\ i # j /\ Live(i)
            /\ obj' = [obj EXCEPT ![j] = Restored(obj[i])]
            /\ hidden' = [hidden EXCEPT ![j] = hidden[i]]
            /\ Log("copy", i, j, 0) /\ UNCHANGED << file, fhidden >>
       \/ \E i \in 1..Objs, f \in 1..Files, s \in {0, 1} :
            /\ Live(i)
            /\ file' = [file EXCEPT ![f] = Dumped(obj[i], s = 1)]
            /\ fhidden' = [fhidden EXCEPT ![f] = hidden[i]]
            /\ Log("dump", i, f, s) /\ UNCHANGED << obj, hidden >>
       \/ \E j \in 1..Objs, f \in 1..Files :
            /\ file[f].lin # << >>
            /\ obj' = [obj EXCEPT ![j] = Restored(file[f])]
            /\ hidden' = [hidden EXCEPT ![j] = fhidden[f]]
            /\ Log("load", f, j, 0) /\ UNCHANGED << file, fhidden >>
Spec == Init /\ [][Next]_vars
\* the lineage determines everything hidden
LineageDecides ==
    /\ \A i, j \in 1..Objs : obj[i].lin = obj[j].lin => hidden[i] = hidden[j]
    /\ \A i \in 1..Objs, f \in 1..Files : obj[i].lin = file[f].lin => hidden[i] = fhidden[f]
Emit == (GENERATE /\ Len(log) = MaxLen) => PrintT("@G " \o ToJson(log))
=============================================================================
