---------------------------------- MODULE Conf ----------------------------------
(***************************************************************************)
(* Conformance of recorded executions of the real code to a specification. *)
(*                                                                         *)
(* A trace file holds cases; a case is a sequence of events (public calls  *)
(* with their arguments and everything observed).  A client module says    *)
(* what the specified system does:                                         *)
(*   Start(case)          the specification's state before the first event *)
(*   Step(case, st, e)    [st |-> the specified next state,                *)
(*                         bad |-> clauses the event breaks]               *)
(* Every event is judged (verdicts are total) and the specified state goes *)
(* on independently of what the code answered, so one rejected event never *)
(* hides a later one.                                                      *)
(***************************************************************************)
EXTENDS Rat, Wigner, Json, IOUtils, TLC, Sequences, FiniteSets

CONSTANTS Start(_), Step(_, _, _)

Cases == JsonDeserialize(IOEnv.NMT_TRACE)

VARIABLES c, i, st
vars == <<c, i, st>>

(* Clauses: sequences of failures, empty when the clause holds. *)
Fail(name, why)            == <<[clause |-> name, why |-> why]>>
Holds(name, ok, why)       == IF ok THEN <<>> ELSE Fail(name, why)
Same(name, obs, exp)       == IF obs = exp THEN <<>> ELSE Fail(name, "observed " \o ToString(obs) \o " specified " \o ToString(exp))
Near(name, obs, exp, tol)  == IF RNear(obs, exp, tol) THEN <<>> ELSE Fail(name, RDiff(obs, exp))
(* tolerance relative to the largest specified value *)
NearRel(name, obs, exp, rel) == Near(name, obs, exp, RAdd(RMul(rel, RMaxAbs(exp)), RStr("1e-300")))
OK(s)                      == [st |-> s, bad |-> <<>>]
Judge(s, b)                == [st |-> s, bad |-> b]

Report(b) == \A k \in 1 .. Len(b) :
  PrintT("@@BAD|" \o ToString(c) \o "|" \o ToString(i + 1) \o "|" \o b[k].clause \o "|" \o b[k].why)

Init == /\ c \in 1 .. Len(Cases)
        /\ i = 0
        /\ st = IF Len(Cases[c].ev) = 1 /\ Cases[c].ev[1].op \in {"Unexpected", "Crash"} THEN 0 ELSE Start(Cases[c])

Event(e) ==
  CASE e.op = "Unexpected" -> Judge(st, Fail("raised", e.call \o ": " \o e.err))      \* a call the specification enables
    [] e.op = "Crash"      -> Judge(st, Fail("crash", e.call \o ": process died, " \o e.err))
    [] OTHER               -> Step(Cases[c], st, e)

Next == /\ i < Len(Cases[c].ev)
        /\ \E r \in {TLCEval(Event(Cases[c].ev[i + 1]))} :
              /\ st' = r.st
              /\ Report(r.bad)
        /\ i' = i + 1
        /\ c' = c
Spec == Init /\ [][Next]_vars
================================================================================
