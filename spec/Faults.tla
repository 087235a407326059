--------------------------------- MODULE Faults ---------------------------------
(***************************************************************************)
(* How a public call must treat an object of several parts (a coupling     *)
(* matrix, its bands, its beams; a file's contents; default parameters):   *)
(* every argument is checked, then everything new is made on the side      *)
(* (which may fail as well: an unreadable file, a singular matrix), and    *)
(* only then are the parts replaced.  A call that fails anywhere is        *)
(* refused and has no effect.                                              *)
(*                                                                         *)
(* A request: the parts it replaces, the argument that is wrong (0: none)  *)
(* and whether making the new parts fails.                                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

Requests(Parts, Args) == [touch : SUBSET Parts, bad : 0 .. Args, breaks : BOOLEAN]
Good(r) == r.bad = 0 /\ ~ r.breaks
(* the effect of a whole request on an object, at once *)
Effect(o, r, v) == IF Good(r) THEN [p \in DOMAIN o |-> IF p \in r.touch THEN v ELSE o[p]] ELSE o
(* the answer to a use *)
Answer(o) == o
=================================================================================
