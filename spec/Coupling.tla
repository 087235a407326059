--------------------------------- MODULE Coupling ---------------------------------
(***************************************************************************)
(* Mode coupling of masked spin fields on the sphere (MASTER).             *)
(* p is the cross-pseudo-spectrum of the two masks: p[L+1] at multipole L. *)
(***************************************************************************)
EXTENDS Wigner, Integers, Sequences, FiniteSets

Abs2(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
FourPi  == RMul(RInt(4), RPi)

(* Spectra of two fields: which of them there are, and in which order. *)
NMaps(s)       == IF s = 0 THEN 1 ELSE 2
NCls(s1, s2)   == NMaps(s1) * NMaps(s2)

(* Spherical-harmonic coefficients of real fields: a = <<re, im>> over 0 <= m <= l <= lmax, m-major. *)
AlmIdx(lmax, l, m) == (m * (2 * lmax + 1 - m)) \div 2 + l + 1
AlmCl(a, b, lmax)  == Eager([l1 \in 1 .. lmax + 1 |->
  LET l == l1 - 1
      t(m) == LET i == AlmIdx(lmax, l, m)
              IN  RAdd(RMul(a[1][i], b[1][i]), RMul(a[2][i], b[2][i]))
  IN  RDiv(RAdd(t(0), RMul(RInt(2), RSum(Eager([m \in 1 .. l |-> t(m)])))), RInt(2 * l + 1))])

(* Coupling coefficients: sum over mask multipoles of (2L+1)/4pi p_L times a product of two 3j symbols.
   par = 0: L + l + l' even only; 1: odd only.                                                         *)
LRange(p, l, k)  == Abs2(l - k) .. Min2(l + k, Len(p) - 1)
WSum3(p, l, k, par, f(_)) ==
  LET lo == LET a == Abs2(l - k) IN IF (a + l + k) % 2 = par THEN a ELSE a + 1
      hi == Min2(l + k, Len(p) - 1)
      n  == IF hi < lo THEN 0 ELSE (hi - lo) \div 2 + 1
  IN  IF n = 0 THEN RInt(0)
      ELSE RDiv(RSum(Eager([j \in 1 .. n |-> LET L == lo + 2 * (j - 1) IN RMul(RMul(RInt(2 * L + 1), p[L + 1]), f(L))])), FourPi)
Sgn1(k) == IF k % 2 = 0 THEN 1 ELSE -1
(* Fields of spins s1, s2 without purification; zero below either spin. *)
Xi(p, s1, s2, l, k, par) ==
  IF Min2(l, k) < Max2(s1, s2) THEN RInt(0)
  ELSE LET F(L) == RMul(W3j(l, k, L, s1, -s1, 0), W3j(l, k, L, s2, -s2, 0))
       IN  RMul(RInt(Sgn1(s1 + s2)), WSum3(p, l, k, par, F))
(* The full coefficient with the multipole count of the coupled spectrum. *)
MixE(p, s1, s2, l, k) == RMul(RInt(2 * k + 1), Xi(p, s1, s2, l, k, 0))
MixO(p, s1, s2, l, k) == RMul(RInt(2 * k + 1), Xi(p, s1, s2, l, k, 1))

(* Entry of the coupling matrix: spectrum a at l from spectrum b at k (a, b counted from 0).
   One spin-0 field: TE, TB. Two spin fields: EE, EB, BE, BB.                                  *)
Entry4(a, b, E, O) == IF a = b THEN E ELSE IF a + b # 3 THEN RInt(0) ELSE IF a \in {0, 3} THEN O ELSE RNeg(O)
Entry(p, s1, s2, a, b, l, k) ==
  CASE NCls(s1, s2) = 1 -> MixE(p, 0, 0, l, k)
    [] NCls(s1, s2) = 2 -> IF a = b THEN MixE(p, s1, s2, l, k) ELSE RInt(0)
    [] OTHER            -> Entry4(a, b, MixE(p, s1, s2, l, k), MixO(p, s1, s2, l, k))
(* Joint T-E-B: TT, TE, TB, EE, EB, BE, BB. *)
EntryTEB(p, s, a, b, l, k) ==
  CASE a = 0 /\ b = 0                     -> MixE(p, 0, 0, l, k)
    [] a \in {1, 2} /\ b \in {1, 2}       -> IF a = b THEN MixE(p, 0, s, l, k) ELSE RInt(0)
    [] a >= 3 /\ b >= 3                   -> Entry4(a - 3, b - 3, MixE(p, s, s, l, k), MixO(p, s, s, l, k))
    [] OTHER                              -> RInt(0)

(* The whole matrix, rows and columns l * ncls + spectrum. *)
MatrixOf(n, lmax, ent(_, _, _, _)) ==
  Eager([r \in 1 .. n * (lmax + 1) |-> Eager([q \in 1 .. n * (lmax + 1) |->
     ent((r - 1) % n, (q - 1) % n, (r - 1) \div n, (q - 1) \div n)])])
Matrix(p, s1, s2, lmax) ==
  LET n == NCls(s1, s2)
      X == Eager([par1 \in 1 .. 2 |-> Eager([l1 \in 1 .. lmax + 1 |-> Eager([k1 \in 1 .. lmax + 1 |->
              IF par1 = 2 /\ n < 4 THEN RInt(0) ELSE RMul(RInt(2 * k1 - 1), Xi(p, s1, s2, l1 - 1, k1 - 1, par1 - 1))])])])
      ent(a, b, l, k) == CASE n < 4 -> IF a = b THEN X[1][l + 1][k + 1] ELSE RInt(0)
                           [] OTHER -> Entry4(a, b, X[1][l + 1][k + 1], X[2][l + 1][k + 1])
  IN  MatrixOf(n, lmax, ent)
MatrixTEB(p, s, lmax) ==
  LET T == Matrix(p, 0, 0, lmax) X == Matrix(p, 0, s, lmax) P == Matrix(p, s, s, lmax)
      ent(a, b, l, k) == CASE a = 0 /\ b = 0 -> T[l + 1][k + 1]
                           [] a \in {1, 2} /\ b \in {1, 2} -> X[2 * l + a][2 * k + b]
                           [] a >= 3 /\ b >= 3 -> P[4 * l + a - 2][4 * k + b - 2]
                           [] OTHER -> RInt(0)
  IN  MatrixOf(7, lmax, ent)

(***************************************************************************)
(* Purified fields (spin 2).  The pure multipoles of a component are those *)
(* of the masked scalar potential of that component, so a pure component   *)
(* receives nothing from the other one, and couples like a scalar times    *)
(* N_l' / N_l, N_l^2 = (l+2)!/(l-2)!.                                      *)
(***************************************************************************)
NPure2(l)      == (l + 2) * (l + 1) * l * (l - 1)
PureRatio(l, k) == IF Min2(l, k) < 2 THEN RInt(0) ELSE RSqrt(RFrac(NPure2(k), NPure2(l)))
W3P(l, k, L, s, pure) == IF pure THEN RMul(PureRatio(l, k), W3j(l, k, L, 0, 0, 0)) ELSE W3j(l, k, L, s, -s, 0)
XiP(p, s1, q1, s2, q2, l, k, par) ==
  IF Min2(l, k) < Max2(s1, s2) THEN RInt(0)
  ELSE LET F(L) == RMul(W3P(l, k, L, s1, q1), W3P(l, k, L, s2, q2))
       IN  RMul(RInt(Sgn1(s1 + s2)), WSum3(p, l, k, par, F))
(* The pair of components (0: scalar or E, 1: B) of spectrum a. *)
CompPair(s1, s2, a) == CASE NCls(s1, s2) = 1 -> <<0, 0>>
                         [] s1 = 0 -> <<0, a>>
                         [] s2 = 0 -> <<a, 0>>
                         [] OTHER  -> <<a \div 2, a % 2>>
(* q1 = <<E pure, B pure>> of the first field, q2 of the second. *)
EntryP(p, s1, q1, s2, q2, a, b, l, k) ==
  LET x == CompPair(s1, s2, a)
      y == CompPair(s1, s2, b)
      mix1 == x[1] # y[1]
      mix2 == x[2] # y[2]
      pure1 == q1[x[1] + 1]
      pure2 == q2[x[2] + 1]
      sign == IF mix1 /\ x[1] # x[2] THEN -1 ELSE 1
  IN  IF mix1 # mix2 \/ (mix1 /\ (pure1 \/ pure2)) THEN RInt(0)
      ELSE RMul(RInt(sign * (2 * k + 1)), XiP(p, s1, pure1, s2, pure2, l, k, IF mix1 THEN 1 ELSE 0))
EntryTEBP(p, s, q, a, b, l, k) ==
  LET no == <<FALSE, FALSE>> IN
  CASE a = 0 /\ b = 0               -> EntryP(p, 0, no, 0, no, 0, 0, l, k)
    [] a \in {1, 2} /\ b \in {1, 2} -> EntryP(p, 0, no, s, q, a - 1, b - 1, l, k)
    [] a >= 3 /\ b >= 3             -> EntryP(p, s, q, s, q, a - 3, b - 3, l, k)
    [] OTHER                        -> RInt(0)
MatrixP(p, s1, q1, s2, q2, lmax) == LET ent(a, b, l, k) == EntryP(p, s1, q1, s2, q2, a, b, l, k) IN MatrixOf(NCls(s1, s2), lmax, ent)
MatrixTEBP(p, s, q, lmax) == LET ent(a, b, l, k) == EntryTEBP(p, s, q, a, b, l, k) IN MatrixOf(7, lmax, ent)

(***************************************************************************)
(* Toeplitz approximation (Louis et al. 2020).  Where an element comes     *)
(* from, by row and column with the smaller first:                         *)
(*   itself, exactly, on the first le rows, on the diagonal, and within db *)
(*   of it up to lt; otherwise from the element at the same distance from  *)
(*   the diagonal in row lt (short distances) or le (distances of at least *)
(*   lmax - lt), scaled by the square roots of the diagonals.              *)
(***************************************************************************)
ToepExact(l, k, lt, le, db) == LET a == Min2(l, k)
                                   d == Abs2(l - k) IN a <= le \/ d = 0 \/ (a <= lt /\ d <= db)
ToepRef(l, k, lt, le, lmax) == IF Abs2(l - k) >= lmax - lt THEN le ELSE lt
Toep(X, l, k, lt, le, db, lmax) ==           \* X[l+1][k+1]: the symmetric exact coefficients
  IF ToepExact(l, k, lt, le, db) THEN X[l + 1][k + 1]
  ELSE LET r  == ToepRef(l, k, lt, le, lmax) + 1
           x  == r + Abs2(l - k)
           D(y) == RAbs(X[y][y])
       IN  IF X[x][x] = RInt(0) \/ X[r][r] = RInt(0) THEN RInt(0)
           ELSE RMul(X[x][r], RSqrt(RDiv(RMul(D(l + 1), D(k + 1)), RMul(D(x), D(r)))))
MatrixToep(p, s1, s2, lmax, t) ==                 \* t = <<l_toeplitz, l_exact, dl_band>>
  LET n == NCls(s1, s2)
      X == Eager([par1 \in 1 .. 2 |-> Eager([l1 \in 1 .. lmax + 1 |-> Eager([k1 \in 1 .. lmax + 1 |->
              IF par1 = 2 /\ n < 4 THEN RInt(0) ELSE Xi(p, s1, s2, l1 - 1, k1 - 1, par1 - 1)])])])
      Y == Eager([par1 \in 1 .. 2 |-> Eager([l1 \in 1 .. lmax + 1 |-> Eager([k1 \in 1 .. lmax + 1 |->
              RMul(RInt(2 * k1 - 1), Toep(X[par1], l1 - 1, k1 - 1, t[1], t[2], t[3], lmax))])])])
      ent(a, b, l, k) == CASE n < 4 -> IF a = b THEN Y[1][l + 1][k + 1] ELSE RInt(0)
                           [] OTHER -> Entry4(a, b, Y[1][l + 1][k + 1], Y[2][l + 1][k + 1])
  IN  MatrixOf(n, lmax, ent)
MatrixToepTEB(p, s, lmax, t) ==
  LET T == MatrixToep(p, 0, 0, lmax, t)
      X == MatrixToep(p, 0, s, lmax, t)
      P == MatrixToep(p, s, s, lmax, t)
      ent(a, b, l, k) == CASE a = 0 /\ b = 0 -> T[l + 1][k + 1]
                           [] a \in {1, 2} /\ b \in {1, 2} -> X[2 * l + a][2 * k + b]
                           [] a >= 3 /\ b >= 3 -> P[4 * l + a - 2][4 * k + b - 2]
                           [] OTHER -> RInt(0)
  IN  MatrixOf(7, lmax, ent)
(* which parameters make sense *)
ToepValid(t, lmax) == t[1] > 0 => (t[2] > 0 /\ t[3] >= 0 /\ t[2] <= t[1] /\ t[1] < lmax /\ t[2] < lmax /\ t[3] < lmax)

(***************************************************************************)
(* Anisotropic weights: a spin field P = Q + iU becomes w P + a conj(P)    *)
(* with a real w and a spin-2s field a of multipoles e, b.  For one mask   *)
(* multipole, with parity of l + l' + L, component x receives from y       *)
(*   even:  w g0 - e g2   - b g2         odd (times i):  - b g2   w g0 + e g2 *)
(*          - b g2     w g0 + e g2                  - w g0 + e g2       b g2 *)
(* up to common signs; g0 and g2 are the 3j symbols of (s, -s, 0), (s, s, -2s). *)
(* P(u, v) is the cross-spectrum of mask component u of the first field    *)
(* and v of the second (1: w, 2: e, 3: b).                                 *)
(***************************************************************************)
AnisoK(x, y, par) ==                      \* <<w, e, b>> coefficients; w with g0, the others with g2
  CASE par = 0 /\ x = y -> IF x = 0 THEN <<1, -1, 0>> ELSE <<1, 1, 0>>
    [] par = 0           -> <<0, 0, -1>>
    [] x = 0 /\ y = 0   -> <<0, 0, -1>>
    [] x = 0             -> <<1, 1, 0>>
    [] y = 0             -> <<-1, 1, 0>>
    [] OTHER             -> <<0, 0, 1>>
EntryAniso(PC(_, _), lmask, s1, s2, a, b, l, k) ==
  LET x == CompPair(s1, s2, a)
      y == CompPair(s1, s2, b)
      eps(s) == RInt(Sgn1(s))
      G(s, u, L) == IF u = 1 THEN W3j(l, k, L, s, -s, 0) ELSE IF s = 0 THEN RInt(0) ELSE RMul(eps(s), W3j(l, k, L, s, s, -2 * s))
      Co(s, xx, yy, par) == IF s = 0 THEN (IF par = 0 THEN <<1, 0, 0>> ELSE <<0, 0, 0>>) ELSE AnisoK(xx, yy, par)
      T(L) == LET par == (l + k + L) % 2
                  k1 == Co(s1, x[1], y[1], par)
                  k2 == Co(s2, x[2], y[2], par)
                  term(u, v) == IF k1[u] * k2[v] = 0 THEN RInt(0)
                                ELSE RMul(RMul(RInt(k1[u] * k2[v]), PC(u, v)[L + 1]), RMul(G(s1, u, L), G(s2, v, L)))
              IN  RMul(RInt(2 * L + 1), RSum(Eager([j \in 1 .. 9 |-> term(((j - 1) \div 3) + 1, ((j - 1) % 3) + 1)])))
      lo == Abs2(l - k)
      hi == Min2(l + k, lmask)
  IN  IF Min2(l, k) < Max2(s1, s2) \/ hi < lo THEN RInt(0)
      ELSE RDiv(RMul(RInt(Sgn1(s1 + s2) * (2 * k + 1)), RSum(Eager([j \in 1 .. hi - lo + 1 |-> T(lo + j - 1)]))), FourPi)
MatrixAniso(PC(_, _), lmask, s1, s2, lmax) == LET ent(a, b, l, k) == EntryAniso(PC, lmask, s1, s2, a, b, l, k) IN MatrixOf(NCls(s1, s2), lmax, ent)
==================================================================================
