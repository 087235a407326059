--------------------------------- MODULE MCAniso ---------------------------------
(* Anisotropic weights: the coupling expressions are the ensemble averages of    *)
(* the multipoles of the weighted fields, and reduce to the isotropic ones.      *)
EXTENDS Kernels, TLC
CONSTANTS LMax, LMask, Pairs, Mults
PQ == {<<0, 1>>, <<2, 0>>, <<1, 1>>, <<2, 2>>, <<1, 2>>}
MQ == {<<2, 3>>, <<2, 2>>}
PT == (((0 .. 2) \X (0 .. 2)) \ {<<0, 0>>}) \cup {<<3, 0>>, <<1, 3>>}
MT == {<<2, 3>>, <<3, 2>>, <<2, 2>>, <<3, 3>>, <<3, 4>>}
VARIABLES v_sp, v_a, v_b, v_lk
vars == <<v_sp, v_a, v_b, v_lk>>
s1 == v_sp[1]
s2 == v_sp[2]
Hf(i, L, M) == <<RFrac(3 - L + 2 * M + i, 4 + i), IF M = 0 THEN RInt(0) ELSE RFrac(2 * L - M + i, 5)>>
Real(i, L, M) == IF M >= 0 THEN Hf(i, L, M) ELSE CScl(RInt(Sgn1(M)), CConj(Hf(i, L, -M)))
SpinMask(i, s, L, M) == IF L < 2 * s THEN C0 ELSE Real(i, L, M)
W1(L, M) == Real(0, L, M)
E1(L, M) == SpinMask(1, s1, L, M)
B1(L, M) == SpinMask(2, s1, L, M)
W2(L, M) == Real(3, L, M)
E2(L, M) == SpinMask(4, s2, L, M)
B2(L, M) == SpinMask(5, s2, L, M)
M1(u, L, M) == CASE u = 1 -> W1(L, M) [] u = 2 -> E1(L, M) [] OTHER -> B1(L, M)
M2(u, L, M) == CASE u = 1 -> W2(L, M) [] u = 2 -> E2(L, M) [] OTHER -> B2(L, M)
PC(u, v) == Eager([L1 \in 1 .. LMask + 1 |-> LET L == L1 - 1 IN
         RDiv(CSumSeq([j \in 1 .. 2 * L + 1 |-> CMul(M1(u, L, j - 1 - L), CConj(M2(v, L, j - 1 - L)))])[1], RInt(2 * L + 1))])
F1(x, y, l, m, k, n) == KAniso(W1, E1, B1, LMask, s1, x, y, l, m, k, n)
F2(x, y, l, m, k, n) == KAniso(W2, E2, B2, LMask, s2, x, y, l, m, k, n)
NC == NCls(s1, s2)
Init == v_sp \in Pairs /\ v_a \in 0 .. NCls(v_sp[1], v_sp[2]) - 1 /\ v_b = 0 /\ v_lk \in Mults
Next == v_b < NC - 1 /\ v_b' = v_b + 1 /\ UNCHANGED <<v_sp, v_a, v_lk>>
Spec == Init /\ [][Next]_vars
Eps == RStr("1e-100")
Mean == MeanPower(F1, F2, CompPair(s1, s2, v_a)[1], CompPair(s1, s2, v_a)[2], CompPair(s1, s2, v_b)[1], CompPair(s1, s2, v_b)[2], v_lk[1], v_lk[2])
EnsembleAverage == RLe(RAbs(RSub(Mean[1], EntryAniso(PC, LMask, s1, s2, v_a, v_b, v_lk[1], v_lk[2]))), Eps)
Zero(u, v) == IF u = 1 /\ v = 1 THEN PC(1, 1) ELSE [L1 \in 1 .. LMask + 1 |-> RInt(0)]
Reduces == RLe(RAbs(RSub(EntryAniso(Zero, LMask, s1, s2, v_a, v_b, v_lk[1], v_lk[2]), Entry(PC(1, 1), s1, s2, v_a, v_b, v_lk[1], v_lk[2]))), Eps)
==================================================================================
