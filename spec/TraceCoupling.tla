------------------------------ MODULE TraceCoupling ------------------------------
(* Recorded coupling matrices against module Coupling. *)
EXTENDS Conf, Coupling

PStart(cs) == 0
(* Shot noise of the mask goes only if the two fields are one and the same. *)
MaskPCL(e) ==
  LET noise == IF e.same = 1 THEN RStr(e.noise[1]) ELSE RInt(0)
      cl    == AlmCl(RMat(e.alm1), RMat(e.alm2), e.lmask)
  IN  Eager([L1 \in 1 .. Len(cl) |-> RSub(cl[L1], noise)])
(* size of the largest sum that enters a coefficient *)
Scale(p, lmax) == RDiv(RMul(RInt(2 * lmax + 1), RSum(Eager([L1 \in 1 .. Len(p) |-> RMul(RInt(2 * L1 - 1), RAbs(p[L1]))]))), FourPi)
Prec == RStr("1e-12")
JudgeMatrix(e) ==
  LET p == MaskPCL(e)
      M == IF e.teb = 1 THEN MatrixTEB(p, e.s[2], e.lmax) ELSE Matrix(p, e.s[1], e.s[2], e.lmax)
  IN  Near("coupling_matrix", e.mat, M, RAdd(RMul(Prec, Scale(p, e.lmax)), RStr("1e-300")))
JudgeEntries(e) ==
  LET p == MaskPCL(e)
      n == IF e.teb = 1 THEN 7 ELSE NCls(e.s[1], e.s[2])
      Blk(l, k) == Eager([r \in 1 .. n |-> Eager([q \in 1 .. n |->
                     IF e.teb = 1 THEN EntryTEB(p, e.s[2], r - 1, q - 1, l, k) ELSE Entry(p, e.s[1], e.s[2], r - 1, q - 1, l, k)])])
      RECURSIVE S(_)
      S(j) == IF j = 0 THEN <<>> ELSE S(j - 1) \o Near("coupling_matrix_entry", e.ents[j].v, Blk(e.ents[j].l, e.ents[j].k), RAdd(RMul(RStr("1e-10"), Scale(p, 0)), RStr("1e-300")))
  IN  Same("shape", e.shape, <<n * (e.lmax + 1), n * (e.lmax + 1)>>) \o Same("finite", e.finite, 1) \o S(Len(e.ents))
Bools(q) == <<q[1] = 1, q[2] = 1>>
JudgeMatrixP(e) ==
  LET p == MaskPCL(e)
      M == IF e.teb = 1 THEN MatrixTEBP(p, e.s[2], Bools(e.q2), e.lmax) ELSE MatrixP(p, e.s[1], Bools(e.q1), e.s[2], Bools(e.q2), e.lmax)
      up == RInt(e.lmax * e.lmax)                       \* purification multiplies by up to N_l' / N_l
  IN  Near("coupling_matrix", e.mat, M, RAdd(RMul(RMul(Prec, up), Scale(p, e.lmax)), RStr("1e-300")))
JudgeEntriesP(e) ==
  LET p == MaskPCL(e)
      n == IF e.teb = 1 THEN 7 ELSE NCls(e.s[1], e.s[2])
      Blk(l, k) == Eager([r \in 1 .. n |-> Eager([q \in 1 .. n |->
                     IF e.teb = 1 THEN EntryTEBP(p, e.s[2], Bools(e.q2), r - 1, q - 1, l, k) ELSE EntryP(p, e.s[1], Bools(e.q1), e.s[2], Bools(e.q2), r - 1, q - 1, l, k)])])
      RECURSIVE S(_)
      S(j) == IF j = 0 THEN <<>>
              ELSE LET B == Blk(e.ents[j].l, e.ents[j].k)
                   IN  S(j - 1) \o Near("coupling_matrix_entry", e.ents[j].v, B, RAdd(RAdd(RMul(RStr("1e-10"), Scale(p, 0)), RMul(RStr("1e-10"), RMaxAbs(B))), RStr("1e-300")))
  IN  Same("shape", e.shape, <<n * (e.lmax + 1), n * (e.lmax + 1)>>) \o Same("finite", e.finite, 1) \o S(Len(e.ents))
JudgeToep(e) ==
  LET p == MaskPCL(e)
      M == IF e.teb = 1 THEN MatrixToepTEB(p, e.s[2], e.lmax, e.t) ELSE MatrixToep(p, e.s[1], e.s[2], e.lmax, e.t)
  IN  IF ~ ToepValid(e.t, e.lmax) THEN Holds("refused", e.err # "", "inconsistent Toeplitz parameters accepted: " \o ToString(e.t))
      ELSE Same("accepted", e.err, "") \o
           (IF e.err # "" THEN <<>> ELSE Near("toeplitz_matrix", e.mat, M, RAdd(RMul(Prec, Scale(p, e.lmax)), RStr("1e-300"))))
(* e.a1, e.a2: multipoles of the mask components w, e, b (the last two empty for isotropic fields) *)
JudgeAniso(e) ==
  LET A(x, u) == RMat(x[u])
      Z == Eager([L1 \in 1 .. e.lmask + 1 |-> RInt(0)])
      T == Eager([u \in 1 .. 3 |-> Eager([v \in 1 .. 3 |-> IF u > Len(e.a1) \/ v > Len(e.a2) THEN Z ELSE AlmCl(A(e.a1, u), A(e.a2, v), e.lmask)])])
      P(u, v) == T[u][v]
      sc == RMaxAbs(Eager([u \in 1 .. 3 |-> Eager([v \in 1 .. 3 |-> Scale(T[u][v], e.lmax)])]))
  IN  Near("coupling_matrix", e.mat, MatrixAniso(P, e.lmask, e.s[1], e.s[2], e.lmax), RAdd(RMul(Prec, sc), RStr("1e-300")))
PStep(cs, s, e) ==
  CASE e.op = "Matrix"  -> Judge(s, JudgeMatrix(e))
    [] e.op = "Entries" -> Judge(s, JudgeEntries(e))
    [] e.op = "Toeplitz" -> Judge(s, JudgeToep(e))
    [] e.op = "Aniso" -> Judge(s, JudgeAniso(e))
    [] e.op = "Equal" -> Judge(s, Near("same_as_isotropic", e.a, RMat(e.b), RAdd(RMul(RStr("1e-11"), RMaxAbs(RMat(e.b))), RStr("1e-14"))))
    [] e.op = "MatrixP"  -> Judge(s, JudgeMatrixP(e))
    [] e.op = "EntriesP" -> Judge(s, JudgeEntriesP(e))
    [] e.op = "Refused"  -> Judge(s, Holds("refused", e.err # "", e.call))
================================================================================
