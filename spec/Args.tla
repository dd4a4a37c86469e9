-------------------------------- MODULE Args --------------------------------
(* What belongs to the caller: arrays, lists and tables that were handed to a  *)
(* call.  The caller may change them between calls; a call - this one or a     *)
(* later one that still holds them - may not.                                  *)
EXTENDS Naturals, Sequences
CONSTANT Objects
VARIABLE mem                        \* object -> content
Caller(o, x) == mem' = [mem EXCEPT ![o] = x]
Call == UNCHANGED mem
\* positions of the watched objects whose content differs after the call
Touched(before, after) == {k \in DOMAIN before : after[k] # before[k]}
=============================================================================
