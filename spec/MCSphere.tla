-------------------------------- MODULE MCSphere --------------------------------
(* The transforms of module Sphere: exact inverses on rectangular grids that    *)
(* resolve the field, Gaunt products at every pixel, rotation and parity.       *)
EXTENDS Sphere, TLC
CONSTANTS LMax, Spins
VARIABLES v_s, v_x, v_l, v_m, v_im
vars == <<v_s, v_x, v_l, v_m, v_im>>
N == 2 * LMax + 2
GC == Car(N, 0, N + 1, 2 * LMax + 2, 2 * LMax + 2, RFrac(1, 7))
GH == Hpx(2)
NA == ((LMax + 1) * (LMax + 2)) \div 2
Unit(y) == <<Eager([i \in 1 .. NA |-> RInt(IF y = v_x /\ v_im = 0 /\ i = AlmIdx(LMax, v_l, v_m) THEN 1 ELSE 0)]),
             Eager([i \in 1 .. NA |-> RInt(IF y = v_x /\ v_im = 1 /\ i = AlmIdx(LMax, v_l, v_m) THEN 1 ELSE 0)])>>
Alm == IF v_s = 0 THEN <<Unit(0)>> ELSE <<Unit(0), Unit(1)>>
Init == v_s \in Spins /\ v_x \in {0, 1} /\ (v_s = 0 => v_x = 0) /\ v_l = v_s /\ v_m = 0 /\ v_im = 0
Next == /\ \/ v_im = 0 /\ v_m > 0 /\ v_im' = 1 /\ UNCHANGED <<v_l, v_m>>
           \/ (v_im = 1 \/ v_m = 0) /\ v_m < v_l /\ v_m' = v_m + 1 /\ v_im' = 0 /\ UNCHANGED v_l
           \/ (v_im = 1 \/ v_m = 0) /\ v_m = v_l /\ v_l < LMax /\ v_l' = v_l + 1 /\ v_m' = 0 /\ v_im' = 0
        /\ UNCHANGED <<v_s, v_x>>
Spec == Init /\ [][Next]_vars
Eps == RStr("1e-70")
BC == [t \in Spins |-> Basis(GC, t, LMax)]
CloseA(a, b) == \A c1 \in 1 .. Len(a) : \A p \in {1, 2} : RWithin(a[c1][p], b[c1][p], Eps)
Inverse == CloseA(Map2Alm(Basis(GC, v_s, LMax), Alm2Map(Basis(GC, v_s, LMax), Alm), 0), Alm)
Idempotent == CloseA(Map2Alm(Basis(GC, v_s, LMax), Alm2Map(Basis(GC, v_s, LMax), Alm), 1), Alm)
(* equal areas; the sphere is covered *)
Area == /\ RLe(RAbs(RSub(RSum(Areas(GH)), FourPi)), Eps)
        /\ RLe(RAbs(RSub(RSum(Areas(GC)), FourPi)), Eps)
        /\ NPix(GH) = 48
(* E with spin -> the same map whose Q and U are rotated by 45 degrees is B *)
EB == v_s > 0 => LET a == Alm2Map(Basis(GH, v_s, LMax), <<Unit(0), Unit(1)>>)
                   b == Alm2Map(Basis(GH, v_s, LMax), <<Unit(1), [c1 \in {1, 2} |-> Eager([i \in 1 .. NA |-> RNeg(Unit(0)[c1][i])])]>>)
               IN  RWithin(a[1], [i \in 1 .. 48 |-> RNeg(b[2][i])], Eps) /\ RWithin(a[2], b[1], Eps)
(* the product with a mask has the multipoles of module Kernels *)
Mask == <<Eager([i \in 1 .. NA |-> RFrac(3 + 2 * i, 7 + i)]), Eager([i \in 1 .. NA |-> IF i <= LMax + 1 THEN RInt(0) ELSE RFrac(5 - i, 3 + i)])>>
LW == 2
MaskL == <<Eager([i \in 1 .. 6 |-> Mask[1][i]]), Eager([i \in 1 .. 6 |-> IF i <= 3 THEN RInt(0) ELSE Mask[2][i]])>>
GP == Car(2 * LMax + LW + 1, 0, 2 * LMax + LW + 2, 2 * LMax + LW + 1, 2 * LMax + LW + 1, RFrac(1, 9))
W(L, M) == FullAlm(MaskL, LW, L, M)
Product ==
  LET B   == Basis(GP, v_s, LMax)
      mk  == Alm2Map(Basis(GP, 0, LW), <<MaskL>>)[1]
      got == Map2Alm(B, MaskMap(Alm2Map(B, Alm), mk), 0)
      y1  == IF v_s = 0 THEN {0} ELSE {0, 1}
      mean(y, ll, mm) == LET a == KComp(W, LW, v_s, y, v_x, ll, mm, v_l, v_m)
                             b == KComp(W, LW, v_s, y, v_x, ll, mm, v_l, -v_m)
                             z == IF v_im = 0 THEN C1 ELSE CI
                         IN  IF v_m = 0 THEN CMul(a, z) ELSE CAdd(CMul(a, z), CScl(RInt(Sgn1(v_m)), CMul(b, CConj(z))))
  IN  \A y \in y1 : \A ll \in v_s .. LMax : \A mm \in 0 .. ll :
        LET i == AlmIdx(LMax, ll, mm) e == mean(y, ll, mm)
        IN  RLe(RAbs(RSub(got[y + 1][1][i], e[1])), Eps) /\ RLe(RAbs(RSub(got[y + 1][2][i], e[2])), Eps)
=================================================================================
