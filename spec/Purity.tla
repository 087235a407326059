---------------------------------- MODULE Purity ----------------------------------
(***************************************************************************)
(* Fields and their spectra as values.  Callers own mutable arrays         *)
(* ("sources", each with a version) and process-wide defaults; a field     *)
(* remembers what both were when it was made.  Whatever is computed from   *)
(* fields later is a function of these snapshots alone.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Absent           == [made |-> FALSE]
Made(k, v, d, lite) == [made |-> TRUE, src |-> k, ver |-> v, def |-> d, lite |-> lite]
Snap(o)          == <<o.src, o.ver, o.def>>
(* requests on one field; those that a lite field does not keep the answer to are refused *)
Single           == {"alms", "malms", "mask", "maps", "temps", "amask", "aalms", "noise"}
NotLite          == {"maps", "temps"}
(* requests on an ordered pair; they may tell a pair of equal fields from a field with itself (noise of catalogs) *)
Pairs            == {"pcl", "matrix", "cov", "bias", "full"}
NeedsFull        == {"bias", "full"}
(* the answer's identity: equal keys, equal answers.  Only the deprojection bias looks at the defaults when asked. *)
KeyOne(q, o)     == [q |-> q, a |-> Snap(o), b |-> <<>>, same |-> 0, d |-> 0]
KeyTwo(q, x, y, same, d) == [q |-> q, a |-> Snap(x), b |-> Snap(y), same |-> same, d |-> IF q \in NeedsFull THEN d ELSE 0]
RefusedOne(q, o)    == q \in NotLite /\ o.lite = 1
RefusedTwo(q, x, y) == q \in NeedsFull /\ (x.lite = 1 \/ y.lite = 1)
===================================================================================
