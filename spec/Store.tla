---------------------------------- MODULE Store ----------------------------------
(***************************************************************************)
(* Objects in memory and in files: workspaces and covariance workspaces of *)
(* the curved and flat sky.  An object is an identity (what it answers)    *)
(* and whether it is complete: a curved workspace may lack its coupling    *)
(* matrix, a covariance workspace all but its spin-0 coefficients.         *)
(***************************************************************************)
EXTENDS Integers

Nothing         == [id |-> 0, full |-> FALSE]
Object(id, full) == [id |-> id, full |-> full]
There(x)        == x.id # 0
(* A curved workspace is written only if it is complete. *)
CanWrite(kind, x)   == There(x) /\ (kind = "curved" => x.full)
(* Reading gives what the file holds, or less if asked to. *)
CanLoad(f)      == There(f)
Loaded(f, want) == Object(f.id, f.full /\ want)
(* Updates (curved workspaces) need the coupling matrix. *)
CanUpdate(kind, x)  == kind = "curved" /\ There(x) /\ x.full
(* A question is answered if there is something that can answer it. *)
CanAnswer(x, needsfull) == There(x) /\ (needsfull => x.full)
==================================================================================
