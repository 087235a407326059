---------------------------------- MODULE Rat ----------------------------------
(***************************************************************************)
(* Exact rational arithmetic for the NaMaster specification.               *)
(*                                                                         *)
(* The definitions below give the meaning of every operator over pairs     *)
(* <<numerator, denominator>>.  When TLC runs with /verif/java on its      *)
(* class path, each is replaced by an accelerator on arbitrary-precision   *)
(* integers (TLC's own integers are 32 bits wide).  RatPure.tla runs these *)
(* definitions unaccelerated and RatSelfTest.tla compares the two.         *)
(*                                                                         *)
(* IEEE doubles recorded from the code are dyadic rationals, so RStr(x)    *)
(* reads them without any rounding.  Irrational functions (RSqrt, RPi,     *)
(* RCos...) return rationals with a relative error below 2^-280.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LOCAL GCD(a, b) == LET RECURSIVE G(_, _)
                       G(x, y) == IF y = 0 THEN x ELSE G(y, x % y)
                   IN  G(IF a < 0 THEN -a ELSE a, IF b < 0 THEN -b ELSE b)
LOCAL Nrm(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                       g == GCD(n, d)
                   IN  <<(s * n) \div g, (s * d) \div g>>

RInt(n)    == <<n, 1>>
RFrac(n, d) == Nrm(n, d)
RNum(a)    == a[1]
RDen(a)    == a[2]
RAdd(a, b) == Nrm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RNeg(a)    == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == Nrm(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == Nrm(a[1] * b[2], a[2] * b[1])
RAbs(a)    == IF a[1] < 0 THEN RNeg(a) ELSE a
RLe(a, b)  == a[1] * b[2] <= b[1] * a[2]
RLt(a, b)  == a[1] * b[2] < b[1] * a[2]
RFloor(a)  == a[1] \div a[2]
RRound(a)  == a                                  \* same value, to within 2^-400 relative

(* Reading recorded numbers: "n/d", decimal, or C99 hexadecimal floats; "nan" and "inf" are not numbers. *)
RIsNum(s)  == Assert(FALSE, "RIsNum needs the accelerator")
RStr(s)    == Assert(FALSE, "RStr needs the accelerator")
RShow(a)   == ToString(a)
(* Recorded text o agrees with the specified numbers e up to tol: same shape, every entry a number, |o - e| <= tol.
   Given here for vectors; the accelerator takes any nesting. RDiff describes the largest disagreement. *)
RNear(o, e, tol) == /\ Len(o) = Len(e)
                    /\ \A i \in 1 .. Len(e) : RIsNum(o[i]) /\ RLe(RAbs(RSub(RStr(o[i]), e[i])), tol)
RDiff(o, e)      == "observed " \o ToString(o) \o " specified " \o ToString(e)
Eager(v)         == v          \* the accelerator evaluates a function over 1..n completely, once

(* Irrational functions: the accelerator returns a rational within 2^-280 of the real value. *)
RSqrt(a)   == CHOOSE r \in {<<p, q>> : p \in 0 .. 50, q \in 1 .. 50} : RMul(r, r) = a   \* exact squares only
RPi        == Assert(FALSE, "RPi needs the accelerator")
RCosPi(q)  == CASE RNum(RMul(q, RInt(2))) % 4 = 0 -> RInt(1)
                [] RNum(RMul(q, RInt(2))) % 4 = 2 -> RInt(-1)
                [] OTHER -> RInt(0)              \* cos(pi q) at multiples of 1/2
RSinPi(q)  == RCosPi(RSub(q, RFrac(1, 2)))       \* sin(pi q)
RCos(x)    == Assert(FALSE, "RCos needs the accelerator")
RSin(x)    == Assert(FALSE, "RSin needs the accelerator")

-------------------------------------------------------------------------------
(* Vectors and matrices are sequences of rationals and sequences of rows.      *)
RVec(s)       == [i \in 1 .. Len(s) |-> RStr(s[i])]
RMat(s)       == [i \in 1 .. Len(s) |-> RVec(s[i])]
RVecOk(s)     == \A i \in 1 .. Len(s) : RIsNum(s[i])
RSum(v)       == LET RECURSIVE S(_)
                     S(i) == IF i = 0 THEN RInt(0) ELSE RAdd(S(i - 1), v[i])
                 IN  S(Len(v))
RMulV(v, w)   == [i \in 1 .. Len(v) |-> RMul(v[i], w[i])]
RDot(v, w)    == RSum(RMulV(v, w))
RLin(a, v, b, w) == [i \in 1 .. Len(v) |-> RAdd(RMul(a, v[i]), RMul(b, w[i]))]
RZeros(n)     == [i \in 1 .. n |-> RInt(0)]
RMatVec(M, v) == [i \in 1 .. Len(M) |-> RDot(M[i], v)]
RTranspose(M) == IF Len(M) = 0 THEN <<>> ELSE [j \in 1 .. Len(M[1]) |-> [i \in 1 .. Len(M) |-> M[i][j]]]
RMatMul(A, B) == LET C == RTranspose(B) IN [i \in 1 .. Len(A) |-> [j \in 1 .. Len(C) |-> RDot(A[i], C[j])]]
RMaxAbs(v)    == LET RECURSIVE M(_)             \* of a vector (the accelerator also takes nested sequences)
                     M(i) == IF i = 0 THEN RInt(0) ELSE LET a == RAbs(v[i]) b == M(i - 1) IN IF RLt(a, b) THEN b ELSE a
                 IN  M(Len(v))
RAbsM(v)      == [i \in 1 .. Len(v) |-> RAbs(v[i])]         \* elementwise (the accelerator also takes nested sequences)
(* The inverse of a square matrix, <<>> if it is singular. The accelerator is exact up to 2000-bit numbers and then
   within 2^-400 per operation; a pivot below 2^-250 of the largest element counts as zero. *)
RInv(M) ==
  LET n == Len(M)
      Aug == [i \in 1 .. n |-> M[i] \o [j \in 1 .. n |-> RInt(IF i = j THEN 1 ELSE 0)]]
      RECURSIVE G(_, _)
      G(A, k) == IF k > n THEN [i \in 1 .. n |-> SubSeq(A[i], n + 1, 2 * n)]
                 ELSE IF \A i \in k .. n : RNum(A[i][k]) = 0 THEN <<>>
                 ELSE LET p == CHOOSE i \in k .. n : RNum(A[i][k]) # 0
                          S == [A EXCEPT ![k] = A[p], ![p] = A[k]]
                          u == [j \in 1 .. 2 * n |-> RDiv(S[k][j], S[k][k])]
                      IN  G([i \in 1 .. n |-> IF i = k THEN u ELSE [j \in 1 .. 2 * n |-> RSub(S[i][j], RMul(S[i][k], u[j]))]], k + 1)
  IN  G(Aug, 1)
(* Same shape and |v - w| <= tol everywhere (the accelerator also takes nested sequences). *)
RWithin(v, w, tol) == /\ Len(v) = Len(w)
                      /\ \A i \in 1 .. Len(v) : RLe(RAbs(RSub(v[i], w[i])), tol)
================================================================================
