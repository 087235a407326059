------------------------------- MODULE TracePurity -------------------------------
(* Recorded histories of fields and requests against module Purity.  Header: refs, the answers of fresh fields by key. *)
EXTENDS Conf, Purity

PStart(cs) == [ver |-> [k \in 1 .. cs.nsrc |-> 1], def |-> 1, obj |-> [o \in 1 .. cs.nobj |-> Absent]]
Ref(cs, key) == LET j == CHOOSE j \in 1 .. Len(cs.refs) : cs.refs[j].key = key IN cs.refs[j]
HasRef(cs, key) == \E j \in 1 .. Len(cs.refs) : cs.refs[j].key = key
Ans(cs, e, key, ref) ==
  IF ref THEN Holds("refused", e.err # "", "nothing is kept to answer this request")
  ELSE IF ~HasRef(cs, key) THEN Fail("key", "no reference for this request: the recording disagrees about the snapshots")
  ELSE LET r == Ref(cs, key)
       IN  IF r.err # "" THEN Holds("refused", e.err # "", "a fresh field refuses this")
           ELSE Same("error", e.err, "") \o (IF e.err # "" THEN <<>> ELSE
                Near("answer", e.val, Eager(RVec(r.val)), RMul(RStr("1e-9"), RMaxAbs(RVec(r.val)))))
Kept(e) == Same("arguments_unchanged", e.kept, 1)
PStep(cs, s, e) ==
  CASE e.op = "Reset"   -> OK(PStart(cs))
    [] e.op = "Make"    -> [st |-> [s EXCEPT !.obj[e.o] = Made(e.src, s.ver[e.src], s.def, e.lite)], bad |-> Kept(e) \o Same("error", e.err, "")]
    [] e.op = "Mutate"  -> OK([s EXCEPT !.ver[e.src] = 3 - @])
    [] e.op = "Default" -> OK([s EXCEPT !.def = 3 - @])
    [] e.op = "One"     -> [st |-> s, bad |-> Kept(e) \o Ans(cs, e, KeyOne(e.q, s.obj[e.o]), RefusedOne(e.q, s.obj[e.o]))]
    [] e.op = "Two"     -> [st |-> s, bad |-> Kept(e) \o Ans(cs, e, KeyTwo(e.q, s.obj[e.x], s.obj[e.y], IF e.x = e.y THEN 1 ELSE 0, s.def), RefusedTwo(e.q, s.obj[e.x], s.obj[e.y]))]
==================================================================================
