------------------------------- MODULE MCCovarFlat -------------------------------
(***************************************************************************)
(* Flat-sky covariances from first principles, as in MCCovar: four white   *)
(* fields on a periodic grid (odd numbers of pixels: no mode is its own    *)
(* negative but the uniform one), masked; mean products of masked modes    *)
(* from the responses to every independent degree of freedom; Wick sums    *)
(* over the modes of two bands.  Parity-odd kernels (products of one       *)
(* leakage and one direct kernel) are left out of the expression: it is    *)
(* exact for mirror-symmetric masks; and for any masks, without EB power,  *)
(* where the two leakages come in pairs.                                   *)
(***************************************************************************)
EXTENDS CovarFlat, TLC
CONSTANTS NX, NY, Deep, Mirror          \* Mirror = 1: masks symmetric in x, and fields with EB power; 0: any masks, no EB
VARIABLES v_sp, v_AA, v_BB, v_XX, v_YY, v_LL, v_KK, ready
vars == <<v_sp, v_AA, v_BB, v_XX, v_YY, v_LL, v_KK, ready>>

G0    == Patch(NX, NY, RFrac(3, 4), RFrac(6, 7))
NPx   == NX * NY
Col(x) == LET q == (x - 1) % NX IN IF Mirror = 1 /\ 2 * q > NX THEN NX - q ELSE q
Mask(k) == Eager([x \in 1 .. NPx |-> LET z == Col(x) + NX * ((x - 1) \div NX) + 1 IN RFrac(((z * z * (k + 1) + 3 * z + k) % 7) + (IF k = 1 THEN 0 ELSE 1), 4)])
Masks == Eager([k \in 1 .. 4 |-> Mask(k)])
(* three bands with a gap, or four *)
Bands == IF Deep = 0 THEN [l0 |-> <<RInt(0), RInt(8), RInt(10)>>, lf |-> <<RInt(8), RInt(9), RInt(30)>>]
         ELSE [l0 |-> <<RInt(0), RInt(8), RInt(12), RInt(17)>>, lf |-> <<RInt(8), RInt(12), RInt(17), RInt(60)>>]
NBands == Len(Bands.l0)
Bm    == AllModes(G0, Bands)
KK    == PairingsFlat(G0, Masks, Bm)
KA    == KernelsFlat(G0, MaskPower(G0, MulW(Masks[1], Masks[3]), MulW(Masks[1], Masks[3])), Bm)

White(i, j, s, t, e, f) == CASE s # t -> RInt(0)
                             [] s = 0 -> RFrac(i + 2 * j, 3)
                             [] e = f -> RFrac(2 * i + j, 5)
                             [] Mirror = 0 -> RInt(0)
                             [] e = 0 -> RFrac(3 * i - j, 7)
                             [] OTHER -> RFrac(j - 3 * i, 7)
Spec4(i, j, s, t) == [q \in 1 .. NCls(s, t) |-> LET v == White(i, j, s, t, (q - 1) \div NMaps(t), (q - 1) % NMaps(t)) IN Eager([b \in 1 .. NBands |-> v])]
(* masked modes of field i, spin s, for every degree of freedom <<mode, part>> of component y *)
Dofs == LET RECURSIVE L(_)
            L(j) == IF j = 0 THEN <<>> ELSE L(j - 1) \o (IF j > Opp(G0, j) THEN <<>> ELSE IF j = Opp(G0, j) THEN <<<<j, 1>>>> ELSE <<<<j, 1>>, <<j, 2>>>>)
        IN  L(NPx)
Resp == Eager([i \in 1 .. 4 |-> Eager([s1 \in 1 .. 2 |-> Eager([y \in 1 .. s1 |-> Eager([d \in 1 .. Len(Dofs) |->
          LET s == 2 * (s1 - 1) IN Fwd(G0, s, MulMap(Inv(G0, s, UnitF(G0, s, y, Dofs[d][1], Dofs[d][2])), Masks[i]))])])])])
Var(d) == LET v == RDiv(RMul(G0.lx, G0.ly), RMul(TwoPi, TwoPi)) IN IF Dofs[d][1] = Opp(G0, Dofs[d][1]) THEN v ELSE RMul(Half0, v)
(* as matrices modes x degrees of freedom, re and im; the second with the variances *)
RMatOf(i, s1, y, e, h, wt) == Eager([a \in 1 .. NPx |-> Eager([d \in 1 .. Len(Dofs) |-> LET x == Resp[i][s1][y][d][e + 1][a][h] IN IF wt THEN RMul(Var(d), x) ELSE x])])
RTab(wt) == Eager([i \in 1 .. 4 |-> Eager([s1 \in 1 .. 2 |-> Eager([y \in 1 .. s1 |-> Eager([e \in 1 .. s1 |-> <<RMatOf(i, s1, y, e - 1, 1, wt), RMatOf(i, s1, y, e - 1, 2, wt)>>])])])])
RTab1 == RTab(FALSE)
RTab2 == RTab(TRUE)
MAdd(u, v) == Eager([r \in 1 .. Len(u) |-> RLin(RInt(1), u[r], RInt(1), v[r])])
MScl(c0, u) == Eager([r \in 1 .. Len(u) |-> RLin(c0, u[r], RInt(0), u[r])])
HermM(u, v) == LET re == RTranspose(v[1])
                   im == RTranspose(v[2])
               IN  <<MAdd(RMatMul(u[1], re), RMatMul(u[2], im)), MAdd(RMatMul(u[2], re), MScl(RInt(-1), RMatMul(u[1], im)))>>
(* component e of field i times the conjugate of component f of field j: <<re, im>> *)
Mean2(i, j, s, e, f) ==
  LET s1 == s \div 2 + 1
      At(q) == LET y == ((q - 1) \div s1) + 1
                   z == ((q - 1) % s1) + 1
                   h == HermM(RTab1[i][s1][y][e + 1], RTab2[j][s1][z][f + 1])
                   x == White(i, j, s, s, y - 1, z - 1)
               IN  <<MScl(x, h[1]), MScl(x, h[2])>>
      RECURSIVE S(_)
      S(q) == IF q = 1 THEN At(1) ELSE LET u == S(q - 1)
                                           v == At(q)
                                       IN  <<MAdd(u[1], v[1]), MAdd(u[2], v[2])>>
  IN  S(s1 * s1)
PairIdx(i, j) == CASE i = 1 /\ j = 3 -> 1 [] i = 2 /\ j = 4 -> 2 [] i = 1 -> 3 [] OTHER -> 4
MeanTab == Eager([p \in 1 .. 4 |-> Eager([s1 \in 1 .. 2 |-> Eager([z \in 1 .. 4 |->
             IF s1 = 1 /\ z > 1 THEN <<>>
             ELSE Mean2(IF p \in {1, 3} THEN 1 ELSE 2, IF p \in {1, 4} THEN 3 ELSE 4, 2 * (s1 - 1), (z - 1) \div 2, (z - 1) % 2)])])])
Wick(ss, ab, cd, la, kb) ==
  LET A == <<ab[1], ab[2], cd[1], cd[2]>>
      Z(i, j, m, n) == IF ss[i] # ss[j] THEN C0 ELSE LET t == MeanTab[PairIdx(i, j)][(ss[i] \div 2) + 1][2 * A[i] + A[j] + 1] IN <<t[1][m][n], t[2][m][n]>>
      na == Len(Bm[la])
      nb == Len(Bm[kb])
      S == Eager([q \in 1 .. na * nb |->
              LET m == Bm[la][((q - 1) \div nb) + 1]
                  n == Bm[kb][((q - 1) % nb) + 1]
              IN  CAdd(CMul(Z(1, 3, m, n), CConj(Z(2, 4, m, n))), CMul(Z(1, 4, m, n), CConj(Z(2, 3, m, n))))])
      v == RDiv(RMul(TwoPi, TwoPi), RMul(G0.lx, G0.ly))
  IN  RDiv(RMul(RMul(v, v), CSumSeq(S)[1]), RInt(na * nb))

Init == v_sp = <<0, 0, 0, 0>> /\ v_AA = 0 /\ v_BB = 0 /\ v_XX = 0 /\ v_YY = 0 /\ v_LL = 1 /\ v_KK = 1 /\ ready = FALSE
Pick4 == /\ ~ ready
         /\ v_sp' \in {<<s1, s2, s3, s4>> : s1 \in {0, 2}, s2 \in {0, 2}, s3 \in {0, 2}, s4 \in {0, 2}}
         /\ \/ v_sp'[1] = v_sp'[3] /\ v_sp'[2] = v_sp'[4]
            \/ v_sp'[1] = v_sp'[4] /\ v_sp'[2] = v_sp'[3]
         /\ v_AA' \in Comps(v_sp'[1]) /\ v_BB' \in Comps(v_sp'[2]) /\ v_XX' \in Comps(v_sp'[3]) /\ v_YY' \in Comps(v_sp'[4])
         /\ v_LL' \in 1 .. NBands
         /\ v_KK' = 1
         /\ ready' = TRUE
Walk == ready /\ v_KK < NBands /\ v_KK' = v_KK + 1 /\ UNCHANGED <<v_sp, v_AA, v_BB, v_XX, v_YY, v_LL, ready>>
Next == Pick4 \/ Walk
Spec == Init /\ [][Next]_vars

Formula(ss, p, q, G1, G2, C, la, kb) ==
  CovEntry(Terms(ss[1], ss[2], ss[3], ss[4], p[1], p[2], q[1], q[2]), Terms(ss[1], ss[2], ss[4], ss[3], p[1], p[2], q[2], q[1]), G1, G2, ss, C, la - 1, kb - 1)
Guess4(ss) == [ac |-> Spec4(1, 3, ss[1], ss[3]), ad |-> Spec4(1, 4, ss[1], ss[4]), bc |-> Spec4(2, 3, ss[2], ss[3]), bd |-> Spec4(2, 4, ss[2], ss[4])]
Here == Formula(v_sp, <<v_AA, v_BB>>, <<v_XX, v_YY>>, KK[1], KK[2], Guess4(v_sp), v_LL, v_KK)
EvenParity == (v_AA + v_BB + v_XX + v_YY) % 2 = 0
Exact == (ready /\ (Mirror = 1 \/ EvenParity)) => RLe(RAbs(RSub(Here, Wick(v_sp, <<v_AA, v_BB>>, <<v_XX, v_YY>>, v_LL, v_KK))), RStr("1e-35"))
Flip(C, m, n) == [q \in 1 .. m * n |-> C[((q - 1) % m) * n + ((q - 1) \div m) + 1]]
GuessT(ss) == LET C == Guess4(ss)
                  n(i) == NMaps(ss[i])
              IN  [ac |-> Flip(C.ac, n(1), n(3)), ad |-> Flip(C.bc, n(2), n(3)), bc |-> Flip(C.ad, n(1), n(4)), bd |-> Flip(C.bd, n(2), n(4))]
Transposed == ready => RLe(RAbs(RSub(Here, Formula(<<v_sp[3], v_sp[4], v_sp[1], v_sp[2]>>, <<v_XX, v_YY>>, <<v_AA, v_BB>>, KK[1], KK[2], GuessT(v_sp), v_KK, v_LL))), RStr("1e-35"))
GuessA(ss) == LET C == Spec4(1, 3, ss[1], ss[3]) IN [ac |-> C, ad |-> C, bc |-> C, bd |-> C]
Positive == (ready /\ v_sp[1] = v_sp[2] /\ v_sp[3] = v_sp[4] /\ v_AA = v_BB /\ v_XX = v_YY) =>
  RLe(RInt(0), Formula(v_sp, <<v_AA, v_BB>>, <<v_XX, v_YY>>, KA, KA, GuessA(v_sp), v_LL, v_KK))
=================================================================================
