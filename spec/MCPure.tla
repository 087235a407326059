--------------------------------- MODULE MCPure ---------------------------------
(***************************************************************************)
(* Purification from first principles.  The pure (l,m) multipole of a      *)
(* masked spin-2 field P is the integral of P with the spin-2 derivative   *)
(* of [mask times Y_lm], which the product rule splits into three terms:   *)
(* the mask with spin-2 harmonics, its first derivative (spin 1) with      *)
(* spin-1 harmonics and its second derivative with scalar ones.            *)
(*   ProductRule: their sum couples pure components like scalars, with     *)
(*                N_l' / N_l, and leaks nothing into the other component   *)
(*   EnsembleAverage: the purified coupling matrix is the mean power       *)
(***************************************************************************)
EXTENDS Kernels, TLC
CONSTANTS LMax, LMask, Spins
VARIABLES v_s1, v_q1, v_s2, v_q2, v_a, v_b, v_l, v_k
vars == <<v_s1, v_q1, v_s2, v_q2, v_a, v_b, v_l, v_k>>

Half1(L, M) == <<RFrac(3 - L + 2 * M, 4), IF M = 0 THEN RInt(0) ELSE RFrac(2 * L - M + 1, 5)>>
Half2(L, M) == <<RFrac(1 + L * M - 2 * M, 3), IF M = 0 THEN RInt(0) ELSE RFrac(1 - L, 2)>>
Real(h(_, _), L, M) == IF M >= 0 THEN h(L, M) ELSE CScl(RInt(Sgn1(M)), CConj(h(L, -M)))
W1(L, M) == Real(Half1, L, M)
W2(L, M) == Real(Half2, L, M)
PCL == Eager([L1 \in 1 .. LMask + 1 |-> LET L == L1 - 1 IN
         RDiv(CSumSeq([j \in 1 .. 2 * L + 1 |-> CMul(W1(L, j - 1 - L), CConj(W2(L, j - 1 - L)))])[1], RInt(2 * L + 1))])

(* spin-t derivatives of a mask, t = +-1, +-2 (edth up and down) *)
Ladder(w(_, _), t, L, M) ==
  IF L < Abs2(t) THEN C0
  ELSE LET f == IF Abs2(t) = 1 THEN RSqrt(RInt((L + 1) * L)) ELSE RSqrt(RInt(NPure2(L)))
       IN  CScl(IF t = -1 THEN RNeg(f) ELSE f, w(L, M))
(* (l,m) multipole of P = spin u = +-2 harmonic (k,n), purified *)
PureKernel(w(_, _), lw, u, ll, m, kk, n) ==
  IF ll < 2 THEN C0
  ELSE LET sg == IF u > 0 THEN 1 ELSE -1
           D1(L, M) == Ladder(w, -sg, L, M)
           D2(L, M) == Ladder(w, -2 * sg, L, M)
           T0 == Kernel(w, lw, 0, u, ll, m, u, kk, n)
           T1 == Kernel(D1, lw, -sg, sg, ll, m, u, kk, n)
           T2 == Kernel(D2, lw, -2 * sg, 0, ll, m, u, kk, n)
           f1 == RMul(RInt(2 * sg), RSqrt(RFrac(1, (ll + 2) * (ll - 1))))
           f2 == RSqrt(RFrac(1, NPure2(ll)))
       IN  CAdd(T0, CAdd(CScl(f1, T1), CScl(f2, T2)))
Eps == RStr("1e-100")
CClose(x, y) == RLe(RAbs(RSub(x[1], y[1])), Eps) /\ RLe(RAbs(RSub(x[2], y[2])), Eps)

(* component x (pure or not) of the masked field from component y *)
PureE(w(_, _), lw, ll, m, kk, n) == CScl(RFrac(1, 2), CAdd(PureKernel(w, lw, 2, ll, m, kk, n), PureKernel(w, lw, -2, ll, m, kk, n)))
PureO(w(_, _), lw, ll, m, kk, n) == CScl(RFrac(1, 2), CMul(CI, CSub(PureKernel(w, lw, 2, ll, m, kk, n), PureKernel(w, lw, -2, ll, m, kk, n))))
F(w(_, _), s, q, x, y, ll, m, kk, n) ==
  IF ~ q[x + 1] THEN KComp(w, LMask, s, x, y, ll, m, kk, n)
  ELSE CASE x = y -> PureE(w, LMask, ll, m, kk, n)
         [] x = 0 -> PureO(w, LMask, ll, m, kk, n)
         [] OTHER -> CScl(RInt(-1), PureO(w, LMask, ll, m, kk, n))
F1(x, y, ll, m, kk, n) == F(W1, v_s1, v_q1, x, y, ll, m, kk, n)
F2(x, y, ll, m, kk, n) == F(W2, v_s2, v_q2, x, y, ll, m, kk, n)

Pures(s) == IF s = 2 THEN {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE>>} ELSE {<<FALSE, FALSE>>}
Init == v_s1 \in Spins /\ v_s2 \in Spins /\ 2 \in {v_s1, v_s2} /\ v_q1 \in Pures(v_s1) /\ v_q2 \in Pures(v_s2) /\ v_a = 0 /\ v_b = 0 /\ v_l = 2 /\ v_k = 2
NC == NCls(v_s1, v_s2)
Next == /\ \/ v_b < NC - 1 /\ v_b' = v_b + 1 /\ UNCHANGED <<v_a, v_l, v_k>>
           \/ v_b = NC - 1 /\ v_a < NC - 1 /\ v_a' = v_a + 1 /\ v_b' = 0 /\ UNCHANGED <<v_l, v_k>>
           \/ v_b = NC - 1 /\ v_a = NC - 1 /\ v_k < LMax /\ v_k' = v_k + 1 /\ v_a' = 0 /\ v_b' = 0 /\ UNCHANGED v_l
           \/ v_b = NC - 1 /\ v_a = NC - 1 /\ v_k = LMax /\ v_l < LMax /\ v_l' = v_l + 1 /\ v_k' = 2 /\ v_a' = 0 /\ v_b' = 0
        /\ UNCHANGED <<v_s1, v_q1, v_s2, v_q2>>
Spec == Init /\ [][Next]_vars
Mean == MeanPower(F1, F2, CompPair(v_s1, v_s2, v_a)[1], CompPair(v_s1, v_s2, v_a)[2], CompPair(v_s1, v_s2, v_b)[1], CompPair(v_s1, v_s2, v_b)[2], v_l, v_k)
EnsembleAverage == Min2(v_l, v_k) >= Max2(v_s1, v_s2) => RLe(RAbs(RSub(Mean[1], EntryP(PCL, v_s1, v_q1, v_s2, v_q2, v_a, v_b, v_l, v_k))), Eps)
(* only where nothing else varies: once per (l, k) *)
ProductRule == (v_s1 = 2 /\ v_s2 = 2 /\ v_a = 0 /\ v_b = 0 /\ v_q1 = <<TRUE, TRUE>> /\ v_q2 = v_q1) =>
  \A m \in -v_l .. v_l, n \in -v_k .. v_k :
     /\ CClose(PureE(W1, LMask, v_l, m, v_k, n), CScl(PureRatio(v_l, v_k), Kernel(W1, LMask, 0, 0, v_l, m, 0, v_k, n)))
     /\ CClose(PureO(W1, LMask, v_l, m, v_k, n), C0)
(* without purification, the general expression is that of module Coupling *)
Reduces == (v_q1 = <<FALSE, FALSE>> /\ v_q2 = v_q1) => RLe(RAbs(RSub(EntryP(PCL, v_s1, v_q1, v_s2, v_q2, v_a, v_b, v_l, v_k), Entry(PCL, v_s1, v_s2, v_a, v_b, v_l, v_k))), Eps)
================================================================================
