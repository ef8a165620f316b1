------------------------------ MODULE ReproCore ------------------------------
(* Objects are known by their lineage: how they were made (settings and seed)
   and the calls made on them since.  Whatever else happens, objects with the
   same lineage give the same answers and are in the same state; a copy made
   by pickling or a file takes the lineage along.

   An object is [lin, func]: func tells whether a result still carries the
   objective.  A file holds what was dumped to it last.                       *)
EXTENDS Base

Nothing == [lin |-> << >>, func |-> FALSE]
Made(key, func) == [lin |-> << key >>, func |-> func]
Called(o, what) == [o EXCEPT !.lin = Append(@, what)]
Restored(o) == o
Dumped(o, store) == [o EXCEPT !.func = @ /\ store]
=============================================================================
