----------------------------- MODULE CallerCore -----------------------------
(* Several users of the same objects: dimensions, an estimator, settings.
   What a user gets depends on its own operations only, and the shared objects
   are as the caller left them after every operation.

   World w
     shared  what the caller can see of each of its objects
     own     user -> the operations it has performed
     seen    << user, operations >> -> what the user got                    *)
EXTENDS Base

Fresh(users, shared) == [shared |-> shared, own |-> [u \in users |-> << >>]]
Moment(w, u, op) == << u, Append(w.own[u], op) >>
Do(w, u, op) == [w EXCEPT !.own[u] = Append(@, op)]
=============================================================================
