---------------------------------- MODULE Field ----------------------------------
(***************************************************************************)
(* What a field is made of: weighted maps, less the part explained by      *)
(* contaminant templates, and their multipoles.                            *)
(***************************************************************************)
EXTENDS Sphere

(* weights: one mask, or the symmetric matrix (m11, m22, m12) acting on (Q, U) *)
MeanMask(m11, m22)  == Eager([x \in 1 .. Len(m11) |-> RMul(Half, RAdd(m11[x], m22[x]))])
AnisoMask(m11, m22, m12) == <<Eager([x \in 1 .. Len(m11) |-> RMul(Half, RSub(m11[x], m22[x]))]), m12>>
WeightMatrix(m11, m22, m12, maps) ==
  <<Eager([x \in 1 .. Len(m11) |-> RAdd(RMul(m11[x], maps[1][x]), RMul(m12[x], maps[2][x]))]),
    Eager([x \in 1 .. Len(m11) |-> RAdd(RMul(m12[x], maps[1][x]), RMul(m22[x], maps[2][x]))])>>

(* Scalar product of two fields, all components. *)
Dot(ar, a, b) == RSum(Eager([c1 \in 1 .. Len(a) |-> RSum(Eager([x \in 1 .. Len(a[c1]) |-> RMul(ar[x], RMul(a[c1][x], b[c1][x]))]))]))
Gram(ar, ts)  == Eager([p \in 1 .. Len(ts) |-> Eager([q \in 1 .. Len(ts) |-> Dot(ar, ts[p], ts[q])])])
Combine(maps, al, ts) ==                      \* maps - sum of al[i] ts[i]
  Eager([c1 \in 1 .. Len(maps) |-> Eager([x \in 1 .. Len(maps[c1]) |->
     RSub(maps[c1][x], RSum(Eager([p \in 1 .. Len(ts) |-> RMul(al[p], ts[p][c1][x])])))])])
(* Best fit of linearly independent templates; their residual. *)
BestFit(ar, maps, ts) == RMatVec(RInv(Gram(ar, ts)), Eager([p \in 1 .. Len(ts) |-> Dot(ar, ts[p], maps)]))
Deproject(ar, maps, ts) == IF Len(ts) = 0 THEN maps ELSE Combine(maps, BestFit(ar, maps, ts), ts)

(***************************************************************************)
(* Transforms of masked maps.  A field's description F: grid (padded), s,  *)
(* q = <<E pure, B pure>>, w mask, malm its multipoles, lmax, lmask, n     *)
(* iterations, B.. bases of the harmonics it needs.                        *)
(***************************************************************************)
Scale(a, lmax, f(_)) ==                       \* multiply multipoles by a function of l
  LET lms == LMs(lmax)
      fl  == Eager([l1 \in 1 .. lmax + 1 |-> f(l1 - 1)])
      v(k) == Eager([j \in 1 .. Len(lms) |-> RMul(fl[lms[j][1] + 1], a[k][j])])
  IN  <<v(1), v(2)>>
ZeroAlm(lmax) == LET z == Eager([j \in 1 .. Len(LMs(lmax)) |-> RInt(0)]) IN <<z, z>>
RootLL(l, a, b) == RSqrt(RInt((l + a) * (l + b)))
AnyPure(F)    == F.q[1] = 1 \/ F.q[2] = 1
MaskProd(wm, m) ==                            \* (conjugate of the spin mask) times the field
  <<Eager([x \in 1 .. Len(m[1]) |-> RAdd(RMul(wm[1][x], m[1][x]), RMul(wm[2][x], m[2][x]))]),
    Eager([x \in 1 .. Len(m[1]) |-> RSub(RMul(wm[1][x], m[2][x]), RMul(wm[2][x], m[1][x]))])>>
(* Multipoles of the masked map; the components to be purified also get the derivatives of the mask. *)
Transform(F, x) ==
  LET a0 == Map2Alm(F.B, MaskMap(x, F.w), F.n)
  IN  IF ~AnyPure(F) THEN a0
      ELSE LET w1a == Scale(F.malm, F.lmask, LAMBDA l : RNeg(RootLL(l, 0, 1)))
               w1  == Alm2Map(F.M1, <<w1a, ZeroAlm(F.lmask)>>)
               w2a == Scale(w1a, F.lmask, LAMBDA l : IF l < 2 THEN RInt(0) ELSE RNeg(RootLL(l, 2, -1)))
               w2  == Alm2Map(F.M2, <<w2a, ZeroAlm(F.lmask)>>)
               p1  == Map2Alm(F.B1, RndM(MaskProd(w1, x)), F.n)
               m2  == RndM(MaskProd(w2, x))
               p2  == <<Map2Alm(F.B0, <<m2[1]>>, F.n)[1], Map2Alm(F.B0, <<m2[2]>>, F.n)[1]>>
               f1(l) == IF l < 2 THEN RInt(0) ELSE RDiv(RInt(2), RootLL(l, 2, -1))
               f2(l) == IF l < 2 THEN RInt(0) ELSE RDiv(RInt(1), RSqrt(RInt((l + 2) * (l + 1) * l * (l - 1))))
               P(k) == IF F.q[k] = 0 THEN a0[k]
                       ELSE LET y == Scale(p1[k], F.lmax, f1)
                                z == Scale(p2[k], F.lmax, f2)
                            IN  RAddM(RAddM(a0[k], y), z)
           IN  RndA(<<P(1), P(2)>>)
Describe(g, s, q, w, lmax, lmask, n, nmask) ==
  LET pure == q[1] = 1 \/ q[2] = 1
      B0   == Basis(g, 0, lmax)
  IN  [g |-> g, ar |-> Areas(g), s |-> s, q |-> q, w |-> w, lmax |-> lmax, lmask |-> lmask, n |-> n, B |-> Basis(g, s, lmax),
       B0 |-> IF pure THEN B0 ELSE <<>>, B1 |-> IF pure THEN Basis(g, 1, lmax) ELSE <<>>,
       M1 |-> IF pure THEN Basis(g, 1, lmask) ELSE <<>>, M2 |-> IF pure THEN Basis(g, 2, lmask) ELSE <<>>,
       malm |-> IF pure THEN Map2Alm(Basis(g, 0, lmask), <<w>>, nmask)[1] ELSE <<>>]
(* with templates: masked maps f and multipoles a of an independent set, and the inverse of their Gram matrix *)
WithTemplates(F, ts) ==
  LET f == Eager([k \in 1 .. Len(ts) |-> RndM(MaskMap(ts[k], F.w))])
  IN  [F |-> F, f |-> f, a |-> Eager([k \in 1 .. Len(ts) |-> Transform(F, ts[k])]), iM |-> IF Len(ts) = 0 THEN <<>> ELSE RInv(Gram(F.ar, f))]
Coeffs(D, wx) == RMatVec(D.iM, Eager([k \in 1 .. Len(D.f) |-> Dot(D.F.ar, D.f[k], wx)]))
SubAlm(a, al, ts) == RndA(Eager([k \in 1 .. Len(a) |-> LET V(h) == Eager([j \in 1 .. Len(a[k][h]) |-> RSub(a[k][h][j], RSum(Eager([p \in 1 .. Len(ts) |-> RMul(al[p], ts[p][k][h][j])])))])
                                                      IN  <<V(1), V(2)>>]))
CleanedOf(D, x, a) == IF Len(D.f) = 0 THEN a ELSE SubAlm(a, Coeffs(D, MaskMap(x, D.F.w)), D.a)     \* a: multipoles of x
Cleaned(D, x) == CleanedOf(D, x, Transform(D.F, x))

(***************************************************************************)
(* Mean change of the spectra of two fields when their templates are       *)
(* removed, over skies with cross-spectra C[a * n2 + b][l] between their   *)
(* components: as a sum over an orthogonal basis of skies.                 *)
(***************************************************************************)
NMap(s) == IF s = 0 THEN 1 ELSE 2
UnitAlm(s, lmax, k, j, h) ==                  \* component k, multipole number j, h = 1 real, 2 imaginary
  Eager([k1 \in 1 .. NMap(s) |-> IF k1 # k THEN ZeroAlm(lmax)
     ELSE LET U(h1) == Eager([x \in 1 .. Len(LMs(lmax)) |-> IF x = j /\ h1 = h THEN RInt(1) ELSE RInt(0)]) IN <<U(1), U(2)>>])
SubSp(x, y) == Eager([k \in 1 .. Len(x) |-> Eager([l \in 1 .. Len(x[k]) |-> RSub(x[k][l], y[k][l])])])
AddSp(x, y) == Eager([k \in 1 .. Len(x) |-> Eager([l \in 1 .. Len(x[k]) |-> RRound(RAdd(x[k][l], y[k][l]))])])
SclSp(z, x) == Eager([k \in 1 .. Len(x) |-> Eager([l \in 1 .. Len(x[k]) |-> RMul(z, x[k][l])])])
ZeroSp(n, lmax) == Eager([k \in 1 .. n |-> Eager([l \in 1 .. lmax + 1 |-> RInt(0)])])
(* mean spectra of the cleaned fields (cleaned), of those before (raw) *)
Ensemble(D1, D2, C) ==
  LET lm  == D1.F.lmax
      n1  == NMap(D1.F.s)
      n2  == NMap(D2.F.s)
      lms == LMs(lm)
      idx == [r \in 1 .. 2 * Len(lms) |-> <<(r + 1) \div 2, IF r % 2 = 1 THEN 1 ELSE 2>>]
      Resp(D, k, r) == LET x == RndM(Alm2Map(D.F.B, UnitAlm(D.F.s, lm, k, idx[r][1], idx[r][2])))
                           a == Transform(D.F, x)
                       IN  <<a, CleanedOf(D, x, a)>>
      R1 == Eager([r \in 1 .. Len(idx) |-> Eager([k \in 1 .. n1 |-> Resp(D1, k, r)])])
      R2 == Eager([r \in 1 .. Len(idx) |-> Eager([k \in 1 .. n2 |-> Resp(D2, k, r)])])
      Var(r, p) == LET l == lms[idx[r][1]][1]
                       m == lms[idx[r][1]][2]
                   IN  IF m = 0 THEN (IF idx[r][2] = 1 THEN C[p][l + 1] ELSE RInt(0)) ELSE RMul(Half, C[p][l + 1])
      Term(z, r, x, y) == SclSp(Var(r, (x - 1) * n2 + y), Spectra(R1[r][x][z], R2[r][y][z], lm))
      RECURSIVE Sum(_, _, _)
      Sum(z, j, acc) == IF j = 0 THEN acc
                        ELSE LET r == ((j - 1) \div (n1 * n2)) + 1
                                 p == (j - 1) % (n1 * n2)
                             IN  Sum(z, j - 1, AddSp(acc, Term(z, r, (p \div n2) + 1, (p % n2) + 1)))
      All(z) == Sum(z, Len(idx) * n1 * n2, ZeroSp(n1 * n2, lm))
  IN  [raw |-> All(1), cleaned |-> All(2)]
SignalBias(D1, D2, C) == LET E == Ensemble(D1, D2, C) IN SubSp(E.cleaned, E.raw)
(* the same for noise of variance v[x] per steradian, independent from pixel to pixel and between components *)
NoiseBias(D, v) ==
  LET n  == NMap(D.F.s)
      lm == D.F.lmax
      np == Len(v)
      Unit(k, x) == Eager([k1 \in 1 .. n |-> Eager([y \in 1 .. np |-> IF k1 = k /\ y = x THEN RInt(1) ELSE RInt(0)])])
      Term(k, x) == LET u == Unit(k, x)
                        b == Transform(D.F, u)
                        a == CleanedOf(D, u, b)
                    IN  SclSp(RDiv(v[x], D.F.ar[x]), SubSp(Spectra(a, a, lm), Spectra(b, b, lm)))
      RECURSIVE Sum(_, _)
      Sum(j, acc) == IF j = 0 THEN acc ELSE Sum(j - 1, AddSp(acc, Term(((j - 1) \div np) + 1, ((j - 1) % np) + 1)))
  IN  Sum(n * np, ZeroSp(n * n, lm))
(***************************************************************************)
(* Closed forms.  In the first, the transforms inside use n iterations, as *)
(* the code's do: for n = 0 it is the ensemble mean exactly.               *)
(***************************************************************************)
MulCl(C, n1, n2, a, lmax, tr) ==              \* multipoles of the other field: sum over components of C times a
  LET lms == LMs(lmax)
      V(k, h) == Eager([j \in 1 .. Len(lms) |-> RSum(Eager([k1 \in 1 .. Len(a) |->
                   RMul(C[IF tr THEN (k - 1) * n2 + k1 ELSE (k1 - 1) * n2 + k][lms[j][1] + 1], a[k1][h][j])]))])
  IN  RndA(Eager([k \in 1 .. (IF tr THEN n1 ELSE n2) |-> <<V(k, 1), V(k, 2)>>]))
SignalBiasFormula(D1, D2, C) ==
  LET lm == D1.F.lmax
      n1 == NMap(D1.F.s)
      n2 == NMap(D2.F.s)
      T(D, f) == Map2Alm(D.F.B, MaskMap(f, D.F.w), D.F.n)
      x2 == Eager([j \in 1 .. Len(D1.f) |-> RndM(Alm2Map(D2.F.B, MulCl(C, n1, n2, T(D1, D1.f[j]), lm, FALSE)))])
      x1 == Eager([j \in 1 .. Len(D2.f) |-> RndM(Alm2Map(D1.F.B, MulCl(C, n1, n2, T(D2, D2.f[j]), lm, TRUE)))])
      t2 == Eager([j \in 1 .. Len(x2) |-> Transform(D2.F, x2[j])])
      t1 == Eager([j \in 1 .. Len(x1) |-> Transform(D1.F, x1[j])])
      pr == Eager([j \in 1 .. Len(D1.f) |-> Eager([r \in 1 .. Len(D2.f) |-> Dot(D1.F.ar, D1.f[j], MaskMap(x1[r], D1.F.w))])])
      k1 == Len(D1.f)
      k2 == Len(D2.f)
      RECURSIVE S1(_, _), S2(_, _), S3(_, _)
      S1(j, acc) == IF j = 0 THEN acc ELSE LET x == ((j - 1) \div k1) + 1
                                               y == ((j - 1) % k1) + 1
                                           IN  S1(j - 1, AddSp(acc, SclSp(RNeg(D1.iM[x][y]), Spectra(D1.a[x], t2[y], lm))))
      S2(j, acc) == IF j = 0 THEN acc ELSE LET x == ((j - 1) \div k2) + 1
                                               y == ((j - 1) % k2) + 1
                                           IN  S2(j - 1, AddSp(acc, SclSp(RNeg(D2.iM[x][y]), Spectra(t1[y], D2.a[x], lm))))
      G == IF k1 = 0 \/ k2 = 0 THEN <<>> ELSE RMatMul(RMatMul(D1.iM, pr), D2.iM)
      S3(j, acc) == IF j = 0 THEN acc ELSE LET x == ((j - 1) \div k2) + 1
                                               y == ((j - 1) % k2) + 1
                                           IN  S3(j - 1, AddSp(acc, SclSp(G[x][y], Spectra(D1.a[x], D2.a[y], lm))))
  IN  S3(k1 * k2, S2(k2 * k2, S1(k1 * k1, ZeroSp(n1 * n2, lm))))
NoiseBiasFormula(D, v) ==
  LET lm == D.F.lmax
      n  == NMap(D.F.s)
      k  == Len(D.f)
      vw == Eager([x \in 1 .. Len(v) |-> RMul(v[x], D.F.w[x])])
      h  == Eager([j \in 1 .. k |-> Transform(D.F, MaskMap(D.f[j], vw))])
      pr == Eager([j \in 1 .. k |-> Eager([r \in 1 .. k |-> Dot(D.F.ar, D.f[j], MaskMap(D.f[r], Eager([x \in 1 .. Len(v) |-> RMul(vw[x], D.F.w[x])])))])])
      G  == IF k = 0 THEN <<>> ELSE RMatMul(RMatMul(D.iM, pr), D.iM)
      RECURSIVE S(_, _)
      S(j, acc) == IF j = 0 THEN acc
                   ELSE LET x == ((j - 1) \div k) + 1
                            y == ((j - 1) % k) + 1
                            t == SclSp(RNeg(D.iM[x][y]), AddSp(Spectra(D.a[x], h[y], lm), Spectra(h[y], D.a[x], lm)))
                        IN  S(j - 1, AddSp(acc, AddSp(t, SclSp(G[x][y], Spectra(D.a[x], D.a[y], lm)))))
  IN  S(k * k, ZeroSp(n * n, lm))
==================================================================================
