--------------------------------- MODULE Params ---------------------------------
(***************************************************************************)
(* Default parameters: the transform library, the numbers of iterations of *)
(* transforms of maps and of masks, and the cut of pseudo-inverses.        *)
(* Settings are checked; an object resolves its parameters once, when it   *)
(* is made; a function when it is called.                                  *)
(***************************************************************************)
EXTENDS Rat

FirstDefaults == [sht |-> "ducc", nit |-> RInt(3), nitm |-> RInt(3), tol |-> RStr("1e-10")]
(* x: a rational (or, for sht, a name) *)
Accepts(p, x) == CASE p = "sht" -> x \in {"ducc", "healpy"}
                   [] p \in {"nit", "nitm"} -> RLe(RInt(0), x)
                   [] p = "tol" -> RLe(RInt(0), x) /\ RLe(x, RInt(1))
SetTo(d, p, x) == IF Accepts(p, x) THEN [d EXCEPT ![p] = x] ELSE d
(* given: a sequence of length 0 or 1 *)
Resolve(d, p, given) == IF given = <<>> THEN d[p] ELSE given[1]
=================================================================================
