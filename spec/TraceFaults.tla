------------------------------- MODULE TraceFaults -------------------------------
(***************************************************************************)
(* Recorded scripts of uses, changes and faults against module Faults.     *)
(* The header's clean holds what the same script answers without its       *)
(* faults, on objects built anew from the same ingredients: the history of *)
(* the twin, which only good requests reach.  The state is how many good   *)
(* requests there have been.                                               *)
(***************************************************************************)
EXTENDS Conf, Faults

SStart(cs) == 0

DoFault(s, e) == Judge(s, Holds("bad_request_refused", e.err # "", e.name \o " was accepted"))
DoGood(cs, s, e) ==
  LET k == s + 1
  IN  Judge(k, IF k > Len(cs.clean) THEN Fail("script", "more requests than without faults")
               ELSE LET x == cs.clean[k]
                    IN  Same("script", e.name, x.name)
                        \o Holds("valid_request_accepted", e.err = "", e.name \o ": " \o e.err \o " after " \o e.after)
                        \o Holds("valid_request_accepted_without_faults", x.err = "", e.name \o ": " \o x.err)
                        \o (IF e.err # "" \/ x.err # "" THEN <<>>
                            ELSE IF Len(e.out) # Len(x.out) THEN Fail("same_answer", e.name \o " has another shape after " \o e.after)
                            ELSE IF ~ RVecOk(e.out) THEN Fail("same_answer", e.name \o " is not finite after " \o e.after)
                            ELSE LET o == RVec(x.out) IN
                                 IF RNear(RVec(e.out), o, RAdd(RMul(RStr(cs.tol), RMaxAbs(o)), RStr("1e-300"))) THEN <<>>
                                 ELSE Fail("same_answer", e.name \o " differs after " \o e.after)))
DoEnd(cs, s, e) == Judge(s, Same("script", s, Len(cs.clean)))

SStep(cs, s, e) ==
  CASE e.op = "Fault" -> DoFault(s, e)
    [] e.op = "Good"  -> DoGood(cs, s, e)
    [] e.op = "End"   -> DoEnd(cs, s, e)
==================================================================================
