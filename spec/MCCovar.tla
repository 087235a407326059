--------------------------------- MODULE MCCovar ---------------------------------
(***************************************************************************)
(* Covariances from first principles.  Four white fields a, b, c, d (for   *)
(* spin 2: EE = BB and EB = -BE, so that the statistics do not depend on   *)
(* the basis) are masked; the mean product of two masked multipoles is a   *)
(* sum over all the intermediate ones, and the covariance of two spectra   *)
(* is a sum of products of those over orders (Wick).  For such fields the  *)
(* narrow-kernel expression is no approximation.                           *)
(*   Exact:     it equals the sum, for every pair of spins and components  *)
(*              (pairs of a scalar and a spin-2 field being uncorrelated)  *)
(*   Positive:  variances of spectra of the same field are not negative,   *)
(*              nor are covariances of two auto-spectra                    *)
(*   Transposed: swapping the two spectra transposes                       *)
(***************************************************************************)
EXTENDS Covar, Kernels, TLC
CONSTANTS LMax, Spins
VARIABLES v_sp, v_AA, v_BB, v_XX, v_YY, v_LL, v_KK, ready
vars == <<v_sp, v_AA, v_BB, v_XX, v_YY, v_LL, v_KK, ready>>

LW == 1                                          \* masks have multipoles up to LW, products of two up to 2 LW
Half(j, L, M) == CASE L = 0 -> <<RInt(3 + j), RInt(0)>>
                   [] M = 0 -> <<RFrac(3 - 2 * j, 4), RInt(0)>>
                   [] OTHER -> <<RFrac(j * j - 2, 5), RFrac(2 * j - 3, 3)>>
W(j, L, M) == IF M >= 0 THEN Half(j, L, M) ELSE CScl(RInt(Sgn1(M)), CConj(Half(j, L, -M)))
Prod(i, j) == LET f(L, M) == W(i, L, M)
                  V(L, M) == CSumSeq([n1 \in 1 .. (LW + 1) * (LW + 1) |-> LET kk == IF n1 = 1 THEN 0 ELSE 1
                                                                              nn == IF n1 = 1 THEN 0 ELSE n1 - 3
                                                                          IN  CMul(Kernel(f, LW, 0, 0, L, M, 0, kk, nn), W(j, kk, nn))])
              IN  Eager([L1 \in 1 .. 2 * LW + 1 |-> Eager([m1 \in 1 .. 2 * L1 - 1 |-> V(L1 - 1, m1 - L1)])])
(* product masks of pairs of fields, and their cross-spectra *)
P13 == Prod(1, 3)
P24 == Prod(2, 4)
P14 == Prod(1, 4)
P23 == Prod(2, 3)
Cross(u, v) == Eager([L1 \in 1 .. 2 * LW + 1 |-> RDiv(CSumSeq([j \in 1 .. 2 * L1 - 1 |-> CMul(u[L1][j], CConj(v[L1][j]))])[1], RInt(2 * L1 - 1))])
K1 == Kernels4(Cross(P13, P24), LMax)
K2 == Kernels4(Cross(P14, P23), LMax)

(* white spectra of fields i and j of spins s and t: between components, and as the formula takes them *)
White(i, j, s, t, e, f) == CASE s # t -> RInt(0)
                             [] s = 0 -> RFrac(i + 2 * j, 3)
                             [] e = f -> RFrac(2 * i + j, 5)
                             [] e = 0 -> RFrac(3 * i - j, 7)
                             [] OTHER -> RFrac(j - 3 * i, 7)
Spec4(i, j, s, t) == [q \in 1 .. NCls(s, t) |-> LET e == (q - 1) \div NMaps(t)
                                                    f == (q - 1) % NMaps(t)
                                                    v == White(i, j, s, t, e, f)
                                                IN  Eager([l1 \in 1 .. LMax + 1 |-> v])]
(* all modes in a row *)
LOf(q) == CHOOSE h \in 0 .. LMax + LW : h * h < q /\ q <= (h + 1) * (h + 1)
MOf(q) == LET h == LOf(q) IN q - 1 - h * h - h
Row(h, o) == h * h + h + o + 1
(* masking as matrices between modes, re and im: component e from component f of spin s with mask i *)
NIn  == (LMax + LW + 1) * (LMax + LW + 1)
NOut == (LMax + 1) * (LMax + 1)
MaskMat(i, s, e, f) ==
  LET w(L, M) == W(i, L, M)
      Z == Eager([r \in 1 .. NOut |-> Eager([q \in 1 .. NIn |->
             IF Abs2(LOf(r) - LOf(q)) > LW \/ Abs2(MOf(r) - MOf(q)) > LW THEN C0 ELSE KComp(w, LW, s, e, f, LOf(r), MOf(r), LOf(q), MOf(q))])])
  IN  <<Eager([r \in 1 .. NOut |-> Eager([q \in 1 .. NIn |-> Z[r][q][1]])]), Eager([r \in 1 .. NOut |-> Eager([q \in 1 .. NIn |-> Z[r][q][2]])])>>
Masking == Eager([i \in 1 .. 4 |-> Eager([s1 \in 1 .. 2 |-> Eager([z \in 1 .. 4 |->
             IF s1 = 1 /\ z > 1 THEN <<>> ELSE MaskMat(i, 2 * (s1 - 1), (z - 1) \div 2, (z - 1) % 2)])])])
(* products with the conjugate transpose *)
MAdd(u, v) == Eager([r \in 1 .. Len(u) |-> RLin(RInt(1), u[r], RInt(1), v[r])])
MScl(c0, u) == Eager([r \in 1 .. Len(u) |-> RLin(c0, u[r], RInt(0), u[r])])
Herm(u, v) == LET re == RTranspose(v[1])
                  im == RTranspose(v[2])
              IN  <<MAdd(RMatMul(u[1], re), RMatMul(u[2], im)), MAdd(RMatMul(u[2], re), MScl(RInt(-1), RMatMul(u[1], im)))>>
(* means of masked multipoles: component e of field i, times the conjugate of component f of field j *)
Mean2(i, j, s, e, f) ==
  LET nc == NMaps(s)
      At(z) == LET e2 == (z - 1) \div nc
                   f2 == (z - 1) % nc
                   h == Herm(Masking[i][(s \div 2) + 1][2 * e + e2 + 1], Masking[j][(s \div 2) + 1][2 * f + f2 + 1])
               IN  <<MScl(White(i, j, s, s, e2, f2), h[1]), MScl(White(i, j, s, s, e2, f2), h[2])>>
      RECURSIVE S(_)
      S(z) == IF z = 1 THEN At(1) ELSE LET u == S(z - 1)
                                           v == At(z)
                                       IN  <<MAdd(u[1], v[1]), MAdd(u[2], v[2])>>
  IN  S(nc * nc)
PairIdx(i, j) == CASE i = 1 /\ j = 3 -> 1 [] i = 2 /\ j = 4 -> 2 [] i = 1 -> 3 [] OTHER -> 4
MeanTab == Eager([p \in 1 .. 4 |-> Eager([s1 \in 1 .. 2 |-> Eager([z \in 1 .. 4 |->
             IF s1 = 1 /\ z > 1 THEN <<>>
             ELSE Mean2(IF p \in {1, 3} THEN 1 ELSE 2, IF p \in {1, 4} THEN 3 ELSE 4, 2 * (s1 - 1), (z - 1) \div 2, (z - 1) % 2)])])])
(* < a_lm b*_lm c*_kn d_kn > connected, summed over orders *)
Wick(ss, ab, cd, ll, kk) ==
  LET A == <<ab[1], ab[2], cd[1], cd[2]>>
      T(i, j) == MeanTab[PairIdx(i, j)][(ss[i] \div 2) + 1][2 * A[i] + A[j] + 1]
      Z(i, j, m, n) == IF ss[i] # ss[j] THEN C0 ELSE <<T(i, j)[1][Row(ll, m)][Row(kk, n)], T(i, j)[2][Row(ll, m)][Row(kk, n)]>>
      S == [q \in 1 .. (2 * ll + 1) * (2 * kk + 1) |->
              LET m == ((q - 1) \div (2 * kk + 1)) - ll
                  n == ((q - 1) % (2 * kk + 1)) - kk
              IN  CAdd(CMul(Z(1, 3, m, n), CConj(Z(2, 4, m, n))), CMul(Z(1, 4, m, n), CConj(Z(2, 3, m, n))))]
      \* d_kn = (-1)^n conj(d_k,-n): the second pairing < a d > < b* c* > runs over -n
  IN  RDiv(CSumSeq(Eager(S))[1], RInt((2 * ll + 1) * (2 * kk + 1)))

Eps == RStr("1e-90")
Init == v_sp = <<0, 0, 0, 0>> /\ v_AA = 0 /\ v_BB = 0 /\ v_XX = 0 /\ v_YY = 0 /\ v_LL = 0 /\ v_KK = 0 /\ ready = FALSE
Pick4 == /\ ~ ready
         /\ v_sp' \in {<<s1, s2, s3, s4>> : s1 \in Spins, s2 \in Spins, s3 \in Spins, s4 \in Spins}
         /\ \/ v_sp'[1] = v_sp'[3] /\ v_sp'[2] = v_sp'[4]
            \/ v_sp'[1] = v_sp'[4] /\ v_sp'[2] = v_sp'[3]
         /\ v_AA' \in Comps(v_sp'[1]) /\ v_BB' \in Comps(v_sp'[2]) /\ v_XX' \in Comps(v_sp'[3]) /\ v_YY' \in Comps(v_sp'[4])
         /\ v_LL' \in Max2(v_sp'[1], v_sp'[2]) .. LMax
         /\ v_KK' = Max2(v_sp'[3], v_sp'[4])
         /\ ready' = TRUE
Walk == ready /\ v_KK < LMax /\ v_KK' = v_KK + 1 /\ UNCHANGED <<v_sp, v_AA, v_BB, v_XX, v_YY, v_LL, ready>>
Next == Pick4 \/ Walk
Spec == Init /\ [][Next]_vars

Guess(ss) == [ac |-> Spec4(1, 3, ss[1], ss[3]), ad |-> Spec4(1, 4, ss[1], ss[4]), bc |-> Spec4(2, 3, ss[2], ss[3]), bd |-> Spec4(2, 4, ss[2], ss[4])]
Formula(ss, p, q, G1, G2, G, ll, kk) ==
  CovEntry(Terms(ss[1], ss[2], ss[3], ss[4], p[1], p[2], q[1], q[2]), Terms(ss[1], ss[2], ss[4], ss[3], p[1], p[2], q[2], q[1]), G1, G2, ss, G, ll, kk)
Here == Formula(v_sp, <<v_AA, v_BB>>, <<v_XX, v_YY>>, K1, K2, Guess(v_sp), v_LL, v_KK)
Exact == ready => RLe(RAbs(RSub(Here, Wick(v_sp, <<v_AA, v_BB>>, <<v_XX, v_YY>>, v_LL, v_KK))), Eps)
(* swapped: fields c, d first; transposed guess spectra, the same products of masks *)
Flip(C, m, n) == [q \in 1 .. m * n |-> C[((q - 1) % m) * n + ((q - 1) \div m) + 1]]       \* C of (m, n) components -> (n, m)
GuessT(ss) == LET G == Guess(ss)
                  n(i) == NMaps(ss[i])
              IN  [ac |-> Flip(G.ac, n(1), n(3)), ad |-> Flip(G.bc, n(2), n(3)), bc |-> Flip(G.ad, n(1), n(4)), bd |-> Flip(G.bd, n(2), n(4))]
Transposed == ready => Here = Formula(<<v_sp[3], v_sp[4], v_sp[1], v_sp[2]>>, <<v_XX, v_YY>>, <<v_AA, v_BB>>, K1, K2, GuessT(v_sp), v_KK, v_LL)
(* auto-spectra of two fields (AA = BB, c = d; here fields 1 and 3) *)
GuessA(ss) == LET G == Spec4(1, 3, ss[1], ss[3]) IN [ac |-> G, ad |-> G, bc |-> G, bd |-> G]
KA == Kernels4(Cross(P13, P13), LMax)
Positive == (ready /\ v_sp[1] = v_sp[2] /\ v_sp[3] = v_sp[4] /\ v_AA = v_BB /\ v_XX = v_YY) =>
  RLe(RInt(0), Formula(v_sp, <<v_AA, v_BB>>, <<v_XX, v_YY>>, KA, KA, GuessA(v_sp), v_LL, v_KK))
==================================================================================
