-------------------------------- MODULE TraceStore --------------------------------
(***************************************************************************)
(* Recorded histories of objects and files against module Store.           *)
(* The header's answers[id][q] are those of an object built afresh with    *)
(* the ingredients of that identity and never written or read.             *)
(***************************************************************************)
EXTENDS Conf, Store

SStart(cs) == [o |-> [k \in 1 .. cs.no |-> Nothing], f |-> [k \in 1 .. cs.nf |-> Nothing]]

Reply(ok, e) == IF ok THEN Holds("valid_request_accepted", e.err = "", e.op \o ": " \o e.err)
                ELSE Holds("bad_request_refused", e.err # "", e.op \o " succeeded")
DoMake(s, e) == Judge([s EXCEPT !.o[e.k] = Object(e.id, e.part = 0)], Reply(TRUE, e))
DoWrite(cs, s, e) == LET ok == CanWrite(cs.kind, s.o[e.k]) IN Judge(IF ok THEN [s EXCEPT !.f[e.f] = s.o[e.k]] ELSE s, Reply(ok, e))
(* f = 0: no such file, or one that holds something else *)
DoLoad(cs, s, e) == IF e.f = 0 THEN Judge(s, Reply(FALSE, e))
                    ELSE LET ok == CanLoad(s.f[e.f]) IN Judge(IF ok THEN [s EXCEPT !.o[e.k] = Loaded(s.f[e.f], e.want = 1)] ELSE s, Reply(ok, e))
DoUpdate(cs, s, e) == LET ok == CanUpdate(cs.kind, s.o[e.k])
                      IN  Judge(IF ok THEN [s EXCEPT !.o[e.k].id = cs.next[s.o[e.k].id]] ELSE s, Reply(ok, e))
DoAsk(cs, s, e) ==
  LET x == s.o[e.k]
      q == cs.questions[e.q]
      ok == CanAnswer(x, q.full = 1)
  IN  Judge(s, IF ~ ok \/ e.err # "" THEN Reply(ok, e)
               ELSE NearRel("same_answer_" \o q.name, e.out, RVec(cs.answers[x.id][e.q]), RStr(cs.tol)))

SStep(cs, s, e) ==
  CASE e.op = "Reset"  -> OK(SStart(cs))
    [] e.op = "Make"   -> DoMake(s, e)
    [] e.op = "Write"  -> DoWrite(cs, s, e)
    [] e.op = "Load"   -> DoLoad(cs, s, e)
    [] e.op = "Update" -> DoUpdate(cs, s, e)
    [] e.op = "Ask"    -> DoAsk(cs, s, e)
===================================================================================
