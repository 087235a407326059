-------------------------------- MODULE MCParams --------------------------------
(***************************************************************************)
(* Every short history of settings and objects.  Objects are made in two   *)
(* steps, like the code's: parameters are resolved when the object is      *)
(* made, but the transform of its mask is only computed when first needed, *)
(* perhaps after the defaults have changed.  Result(o) is what the         *)
(* transform was computed with.  Each history is replayed on the code.     *)
(* Mutant: late (resolved when first needed), leak (a given parameter      *)
(* becomes the default), store (refused values are kept).                  *)
(***************************************************************************)
EXTENDS Params, Sequences, TLC, Json

CONSTANTS NO, Depth, Mutant
VARIABLES d, made, done, given, hist
vars == <<d, made, done, given, hist>>
Full == <<d, made, done, given>>

Nums == {RInt(0), RInt(2)}
Bad  == RInt(-1)
Log(x) == hist' = Append(hist, x)
NoObj == [made |-> FALSE]
Init == /\ d = [FirstDefaults EXCEPT !.tol = RInt(0)]
        /\ made = [k \in 1 .. NO |-> <<>>]       \* resolved parameters
        /\ done = [k \in 1 .. NO |-> <<>>]       \* what the lazy transform was computed with
        /\ given = [k \in 1 .. NO |-> <<>>]      \* history variable: the defaults and arguments at the time
        /\ hist = <<>>
Vals(p) == IF p = "sht" THEN {"ducc", "healpy", "other"} ELSE IF p = "tol" THEN {RInt(0), RFrac(1, 4), RInt(2)} ELSE Nums \cup {Bad}
Set(p, x) == /\ Log([op |-> "Set", p |-> p, x |-> IF p = "sht" THEN x ELSE RShow(x)])
             /\ d' = IF Mutant = "store" THEN [d EXCEPT ![p] = x] ELSE SetTo(d, p, x)
             /\ UNCHANGED <<made, done, given>>
Arg(q) == IF q THEN <<RInt(1)>> ELSE <<>>
Make(k, a, b, t) ==
  /\ Log([op |-> "Make", k |-> k, a |-> IF a THEN 1 ELSE 0, b |-> IF b THEN 1 ELSE 0, t |-> IF t THEN 1 ELSE 0])
  /\ made' = [made EXCEPT ![k] = <<Resolve(d, "nit", Arg(a)), Resolve(d, "nitm", Arg(b)), Resolve(d, "tol", Arg(t))>>]
  /\ done' = [done EXCEPT ![k] = <<>>]
  /\ given' = [given EXCEPT ![k] = <<d, a, b, t>>]
  /\ d' = IF Mutant = "leak" /\ a THEN [d EXCEPT !.nit = RInt(1)] ELSE d
Look(k) == /\ made[k] # <<>>
           /\ Log([op |-> "Look", k |-> k])
           /\ done' = [done EXCEPT ![k] = IF @ # <<>> THEN @ ELSE IF Mutant = "late" THEN <<d.nitm>> ELSE <<made[k][2]>>]
           /\ UNCHANGED <<d, made, given>>
Next == /\ Len(hist) < Depth
        /\ \/ \E p \in {"sht", "nit", "nitm", "tol"} : \E x \in Vals(p) : Set(p, x)
           \/ \E k \in 1 .. NO : Look(k) \/ \E a, b, t \in BOOLEAN : Make(k, a, b, t)
        /\ PrintT("@@BEH|" \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

(* the last accepted settings, from the history alone *)
Last(p, first) == LET RECURSIVE L(_)
                      L(j) == IF j = 0 THEN first
                              ELSE IF hist[j].op = "Set" /\ hist[j].p = p /\ Accepts(p, IF p = "sht" THEN hist[j].x ELSE RStr(hist[j].x)) THEN (IF p = "sht" THEN hist[j].x ELSE RStr(hist[j].x))
                              ELSE L(j - 1)
                  IN  L(Len(hist))
Reported == \A p \in {"sht", "nit", "nitm", "tol"} : d[p] = Last(p, IF p = "tol" THEN RInt(0) ELSE FirstDefaults[p])
Fixed == \A k \in 1 .. NO : made[k] # <<>> =>
  LET g == given[k] IN
  /\ made[k][1] = (IF g[2] THEN RInt(1) ELSE g[1].nit)
  /\ made[k][2] = (IF g[3] THEN RInt(1) ELSE g[1].nitm)
  /\ made[k][3] = (IF g[4] THEN RInt(1) ELSE g[1].tol)
  /\ done[k] # <<>> => done[k] = <<made[k][2]>>
Valid == Accepts("sht", d.sht) /\ Accepts("nit", d.nit) /\ Accepts("nitm", d.nitm) /\ Accepts("tol", d.tol)
=================================================================================
