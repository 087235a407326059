--------------------------------- MODULE MCPinv ---------------------------------
(***************************************************************************)
(* The conditions of module Pinv against matrices with known eigenvectors: *)
(* of all the inverses on sets of eigenvectors (with 0, or the wrong       *)
(* value, on others) only the one that keeps the eigenvalues at least a    *)
(* fraction of the largest satisfies them; inertia counts eigenvalues; and *)
(* the doubled form of a complex matrix has every eigenvalue twice.        *)
(***************************************************************************)
EXTENDS Pinv, FiniteSets

CONSTANTS Dim
Values == {-2, 0, 1, 3, 8}
VARIABLES rot, lam, cand, phase
vars == <<rot, lam, cand, phase>>

Turn(x, y, c, s) == Eager([a \in 1 .. Dim |-> Eager([b \in 1 .. Dim |-> IF a = b THEN (IF a \in {x, y} THEN c ELSE R1) ELSE IF a = x /\ b = y THEN RNeg(s) ELSE IF a = y /\ b = x THEN s ELSE R0])])
Rots == {Ident(Dim),
         Turn(1, 2, RFrac(3, 5), RFrac(4, 5)),
         MMul(Turn(1, Dim, RFrac(5, 13), RFrac(12, 13)), Turn(Dim - 1, Dim, RFrac(3, 5), RFrac(-4, 5)))}
Conj(R, d) == MMul(MMul(R, Eager([a \in 1 .. Dim |-> Eager([b \in 1 .. Dim |-> IF a = b THEN d[a] ELSE R0])])), TransM(R))
Init == rot = <<>> /\ lam = <<>> /\ cand = <<>> /\ phase = 0
Choose == phase = 0 /\ \E R \in Rots, v \in [1 .. Dim -> Values], w \in [1 .. Dim -> {0, 1, 2}] :
  rot' = R /\ lam' = v /\ cand' = w /\ phase' = 1
Next == Choose \/ (phase = 1 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Ev(a) == RFrac(lam[a], 4)
M == Conj(rot, [a \in 1 .. Dim |-> Ev(a)])
(* 0: dropped, 1: inverted, 2: given some other value *)
X == Conj(rot, [a \in 1 .. Dim |-> IF cand[a] = 0 THEN R0 ELSE IF cand[a] = 1 /\ lam[a] # 0 THEN RDiv(R1, Ev(a)) ELSE RInt(5)])
Most == CHOOSE x \in {lam[a] : a \in 1 .. Dim} : \A a \in 1 .. Dim : lam[a] <= x
(* cuts between the eigenvalues *)
Cut == RFrac(1, 8)
Right == \A a \in 1 .. Dim : cand[a] = (IF lam[a] >= 1 THEN 1 ELSE 0)
Counted == phase = 1 => /\ Above(M, Cut) = Cardinality({a \in 1 .. Dim : lam[a] >= 1})
                        /\ Inertia(M) = <<Cardinality({a \in 1 .. Dim : lam[a] > 0}), Cardinality({a \in 1 .. Dim : lam[a] < 0})>>
                        /\ LET r == Largest(M, 30) IN RLe(RAbs(RSub(r, RFrac(Most, 4))), RMul(RStr("1e-8"), RAdd(R1, RowBound(M))))
Unique == phase = 1 => (IsPinv(M, X, Cut, RStr("1e-9")) <=> (\A a \in 1 .. Dim : (lam[a] >= 1 /\ cand[a] = 1) \/ (lam[a] < 1 /\ cand[a] = 0) \/ (lam[a] >= 1 /\ cand[a] = 2 /\ Ev(a) = RFrac(1, 5))))
Twice == phase = 1 => LET Z == [a \in 1 .. Dim |-> [b \in 1 .. Dim |-> R0]]
                          H == <<<<Ev(1), R0>>, <<R0, Ev(2)>>>>
                          K == <<<<R0, RInt(1)>>, <<RInt(-1), R0>>>>
                      IN  /\ Inertia(Doubled(M, Z)) = LET r == Inertia(M) IN <<2 * r[1], 2 * r[2]>>
                          (* a + i b off the diagonal: determinant a1 a2 - 1 *)
                          /\ LET r == Inertia(Doubled(H, K))
                                 d == RSub(RMul(Ev(1), Ev(2)), R1)
                             IN  IF RLt(d, R0) THEN r = <<2, 2>> ELSE IF d = R0 THEN r[1] + r[2] = 2 ELSE r[1] + r[2] = 4 /\ r[1] \in {0, 4}
=================================================================================
