------------------------------ MODULE MCCaller ------------------------------
(* Interleavings of users of the same objects.  Every user borrows the shared
   layout: some operations change it and have to put it back before they
   return.  Two designs: borrowing with restore, and borrowing the object
   itself; the first gives every user what it gets alone.                   *)
EXTENDS CallerCore, Json
CONSTANTS Users, MaxLen, Restores, GENERATE
VARIABLES w, layout, got, log
vars == << w, layout, got, log >>

Ops == {"use", "warp"}
Needs(u) == u % 2                 \* the layout user u works in
Init == /\ w = Fresh(1..Users, << 0 >>) /\ layout = 0
        /\ got = << >> /\ log = << >>
\* "use" reads the layout the caller made, "warp" works in another one
Answer(u, op) == IF op = "warp" THEN << op, Needs(u) >> ELSE << op, layout >>
Act(u, op) ==
    /\ Len(log) < MaxLen
    /\ got' = Append(got, << Moment(w, u, op), Answer(u, op) >>)
    /\ layout' = IF op = "warp" /\ ~Restores THEN Needs(u) ELSE layout
    /\ w' = [Do(w, u, op) EXCEPT !.shared = << layout' >>]
    /\ log' = Append(log, << u, op >>)
Next == \E u \in 1..Users, op \in Ops : Act(u, op)
Spec == Init /\ [][Next]_vars

CallerUnchanged == w.shared = << 0 >>
\* what a user gets is a function of its own operations
NoInterference == \A i, j \in DOMAIN got :
    (got[i][1][1] % 2 = got[j][1][1] % 2 /\ Last(got[i][1][2]) = Last(got[j][1][2]))
        => got[i][2] = got[j][2]
Emit == (GENERATE /\ Len(log) = MaxLen) => PrintT("@G " \o ToJson(log))
=============================================================================
