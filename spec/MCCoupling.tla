------------------------------- MODULE MCCoupling -------------------------------
(***************************************************************************)
(* The 3j expression for the coupling matrix is the ensemble average of    *)
(* the multipoles of masked fields: checked entry by entry, for every pair *)
(* of spins, every pair of spectra and every (l, l') within the constants, *)
(* for two different masks with several complex modes.  A state is one     *)
(* entry of one matrix; the walk visits them all.                          *)
(***************************************************************************)
EXTENDS Kernels, TLC
CONSTANTS LMax, LMask, Spins
VARIABLES v_s1, v_s2, v_a, v_b, v_l, v_k
vars == <<v_s1, v_s2, v_a, v_b, v_l, v_k>>

(* two real masks: w(L,-M) = (-1)^M conj(w(L,M)) *)
Half1(L, M) == <<RFrac(3 - L + 2 * M, 4), IF M = 0 THEN RInt(0) ELSE RFrac(2 * L - M + 1, 5)>>
Half2(L, M) == <<RFrac(1 + L * M - 2 * M, 3), IF M = 0 THEN RInt(0) ELSE RFrac(1 - L, 2)>>
Real(h(_, _), L, M) == IF M >= 0 THEN h(L, M) ELSE CScl(RInt(Sgn1(M)), CConj(h(L, -M)))
W1(L, M) == Real(Half1, L, M)
W2(L, M) == Real(Half2, L, M)
PCL == Eager([L1 \in 1 .. LMask + 1 |-> LET L == L1 - 1 IN
         RDiv(CSumSeq([j \in 1 .. 2 * L + 1 |-> CMul(W1(L, j - 1 - L), CConj(W2(L, j - 1 - L)))])[1], RInt(2 * L + 1))])
FullSky == <<FourPi>>

Init == v_s1 \in Spins /\ v_s2 \in Spins /\ v_a = 0 /\ v_b = 0 /\ v_l = 0 /\ v_k = 0
NC == NCls(v_s1, v_s2)
Next == /\ \/ v_b < NC - 1 /\ v_b' = v_b + 1 /\ UNCHANGED <<v_a, v_l, v_k>>
           \/ v_b = NC - 1 /\ v_a < NC - 1 /\ v_a' = v_a + 1 /\ v_b' = 0 /\ UNCHANGED <<v_l, v_k>>
           \/ v_b = NC - 1 /\ v_a = NC - 1 /\ v_k < LMax /\ v_k' = v_k + 1 /\ v_a' = 0 /\ v_b' = 0 /\ UNCHANGED v_l
           \/ v_b = NC - 1 /\ v_a = NC - 1 /\ v_k = LMax /\ v_l < LMax /\ v_l' = v_l + 1 /\ v_k' = 0 /\ v_a' = 0 /\ v_b' = 0
        /\ UNCHANGED <<v_s1, v_s2>>
Spec == Init /\ [][Next]_vars

Comp(x) == IF v_s2 = 0 THEN <<x, 0>> ELSE <<x \div 2, x % 2>>   \* the two components of spectrum x
Pair(x) == CASE NC = 1 -> <<0, 0>> [] NC = 2 /\ v_s1 = 0 -> <<0, x>> [] NC = 2 -> <<x, 0>> [] OTHER -> <<x \div 2, x % 2>>
F1(x, y, ll, m, kk, n) == KComp(W1, LMask, v_s1, x, y, ll, m, kk, n)
F2(x, y, ll, m, kk, n) == KComp(W2, LMask, v_s2, x, y, ll, m, kk, n)
Eps == RStr("1e-100")
Mean == MeanPower(F1, F2, Pair(v_a)[1], Pair(v_a)[2], Pair(v_b)[1], Pair(v_b)[2], v_l, v_k)
CClose(x, y) == RLe(RAbs(RSub(x[1], y[1])), Eps) /\ RLe(RAbs(RSub(x[2], y[2])), Eps)
Ent == Entry(PCL, v_s1, v_s2, v_a, v_b, v_l, v_k)
(* The masks are different, so the average has an imaginary part too; the real part is what spectra estimate. *)
EnsembleAverage == Min2(v_l, v_k) >= Max2(v_s1, v_s2) => RLe(RAbs(RSub(Mean[1], Ent)), Eps)
FullSkyIdentity == LET f == Entry(FullSky, v_s1, v_s2, v_a, v_b, v_l, v_k)
                       e == IF v_a = v_b /\ v_l = v_k /\ v_l >= Max2(v_s1, v_s2) THEN RInt(1) ELSE RInt(0)
                   IN  RLe(RAbs(RSub(f, e)), Eps)
Reciprocity == LET x == RMul(RInt(2 * v_l + 1), Ent) y == RMul(RInt(2 * v_k + 1), Entry(PCL, v_s1, v_s2, v_a, v_b, v_k, v_l)) IN RLe(RAbs(RSub(x, y)), Eps)
================================================================================
