-------------------------------- MODULE TracePinv --------------------------------
(* Recorded pseudo-inverses against module Pinv. *)
EXTENDS Conf, Pinv

Mat(x) == Eager([k \in 1 .. Len(x) |-> Eager(RVec(x[k]))])
Num(x) == \A k \in 1 .. Len(x) : RVecOk(x[k])
(* real symmetric, or complex as real and imaginary parts *)
Of(re, im) == IF im = <<>> THEN Mat(re) ELSE Doubled(Mat(re), Mat(im))
JudgePinv(e) ==
  IF e.err # "" THEN Fail("raised", e.err)
  ELSE IF ~ (Num(e.x) /\ Num(e.xi)) THEN Fail("finite", "not finite")
  ELSE
  LET M == Of(e.m, e.mi)
      X == Of(e.x, e.xi)
      tol == RStr(e.tol)
      t == RStr(e.cut)
  IN  Holds("shape", Len(e.x) = Len(e.m) /\ \A k \in 1 .. Len(e.x) : Len(e.x[k]) = Len(e.m), "shape") \o
      (IF RLe(t, R0) THEN Holds("inverse", MWithin(MMul(M, X), Ident(Len(M)), tol), "the product with the matrix is not the identity")
       ELSE LET c0 == RMul(t, Largest(M, 60)) IN
         IF RMaxAbs(M) = R0 THEN Holds("nothing", RMaxAbs(X) = R0, "the pseudo-inverse of nothing is not nothing")
         ELSE Holds("hermitian", Commutes(M, X, tol), "the pseudo-inverse or its product with the matrix is not Hermitian")
              \o Holds("projects", Projects(M, X, tol), "the product with the matrix is no projection")
              \o Holds("kept", Counts(M, X, c0, tol), "keeps " \o RShow(Tr(MMul(M, X))) \o " eigenvectors of " \o ToString(Above(M, c0)))
              \o Holds("largest", Bounded(X, c0, tol), "keeps an eigenvector below the cut"))
PvStart(cs) == 0
PvStep(cs, s, e) ==
  CASE e.op = "Pinv"   -> Judge(s, JudgePinv(e) \o Holds("input_unchanged", e.kept = 1, "the matrix was modified"))
    [] e.op = "Refuse" -> Judge(s, Holds("refused", e.err # "", e.why \o " was accepted"))
=================================================================================
