--------------------------------- MODULE Sphere ---------------------------------
(***************************************************************************)
(* Maps on the sphere and their spin-weighted multipoles.                  *)
(* A sampling of the sphere is a sequence of rings; a ring is a record     *)
(*   ch, sh : cos and sin of half its colatitude                           *)
(*   w      : area assigned to each of its pixels                          *)
(*   e      : <<cos, sin>> of the longitude of each pixel                  *)
(* A map is one vector of values per component, ring after ring.           *)
(* Multipoles of a component: <<re, im>>, m-major (AlmIdx in Coupling).    *)
(***************************************************************************)
EXTENDS Kernels

Half == RFrac(1, 2)
LonOf(q) == <<RCosPi(q), RSinPi(q)>>                 \* longitude q pi

(* HEALPix: rings of equal-area pixels *)
HpxRing(nside, i) ==
  LET j   == IF i > 2 * nside THEN 4 * nside - i ELSE i
      cap == j < nside
      z0  == IF cap THEN RSub(RInt(1), RFrac(j * j, 3 * nside * nside)) ELSE RSub(RFrac(4, 3), RFrac(2 * j, 3 * nside))
      z   == IF i > 2 * nside THEN RNeg(z0) ELSE z0
      n   == IF cap THEN 4 * j ELSE 4 * nside
      odd == IF cap \/ ((j - nside) % 2 = 0) THEN 1 ELSE 0   \* rings shifted by half a pixel
  IN  [ch |-> RSqrt(RMul(Half, RAdd(RInt(1), z))), sh |-> RSqrt(RMul(Half, RSub(RInt(1), z))),
       w  |-> RRound(RDiv(FourPi, RInt(12 * nside * nside))),
       e  |-> Eager([k \in 1 .. n |-> LonOf(RFrac(4 * (k - 1) + 2 * odd, 2 * n))])]
Hpx(nside) == Eager([i \in 1 .. 4 * nside - 1 |-> HpxRing(nside, i)])

(* Rectangular grids: colatitudes pi j / N, both poles included; Clenshaw-Curtis weights. *)
CCWeight(N, j) ==
  LET c == IF j \in {0, N} THEN RInt(1) ELSE RInt(2)
      T(k) == RMul(RFrac(IF 2 * k = N THEN 1 ELSE 2, 4 * k * k - 1), RCosPi(RFrac(2 * k * j, N)))
  IN  RMul(RDiv(RMul(c, RMul(RInt(2), RPi)), RInt(N)), RSub(RInt(1), RSum(Eager([k \in 1 .. N \div 2 |-> T(k)]))))
(* rows j0 .. j0 + n - 1, columns 0 .. m - 1 of M, the first at longitude q pi *)
Car(N, j0, n, M, m, q) ==
  Eager([i \in 1 .. n |-> LET j == j0 + i - 1 IN
    [ch |-> RCosPi(RFrac(j, 2 * N)), sh |-> RSinPi(RFrac(j, 2 * N)), w |-> RRound(RDiv(CCWeight(N, j), RInt(M))),
     e  |-> Eager([k \in 1 .. m |-> LonOf(RAdd(q, RFrac(2 * (k - 1), M)))])]])
(* isolated points at colatitude t, longitude p (radians), weight 1 *)
Points(t, p) ==
  Eager([i \in 1 .. Len(t) |-> LET h == RMul(Half, t[i]) IN
    [ch |-> RCos(h), sh |-> RSin(h), w |-> RInt(1), e |-> <<<<RCos(p[i]), RSin(p[i])>>>>]])

NPix(G)   == LET RECURSIVE S(_)
                 S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + Len(G[i].e) IN S(Len(G))
Starts(G) == LET RECURSIVE S(_)
                 S(i) == IF i = 0 THEN <<0>> ELSE LET t == S(i - 1) IN Append(t, t[i] + Len(G[i].e)) IN S(Len(G))
Areas(G)  == LET RECURSIVE S(_)
                 S(i) == IF i = 0 THEN <<>> ELSE S(i - 1) \o [k \in 1 .. Len(G[i].e) |-> G[i].w] IN Eager(S(Len(G)))
(* sum over the sphere of the product of two maps of one component *)
DotMap(G, a, b) == LET ar == Areas(G) IN RSum(Eager([x \in 1 .. Len(a) |-> RMul(ar[x], RMul(a[x], b[x]))]))

(* Harmonics on a sampling: lam[ring][m + lmax + 1][l + 1], and e^{i m phi}: ph[ring][pixel][m + 1] *)
CRound(x) == <<RRound(x[1]), RRound(x[2])>>
Basis(G, s, lmax) ==
  [s |-> s, lmax |-> lmax,
   lam |-> Eager([r \in 1 .. Len(G) |-> Eager([m1 \in 1 .. 2 * lmax + 1 |-> Eager([l1 \in 1 .. lmax + 1 |->
             SLambda(s, l1 - 1, m1 - 1 - lmax, G[r].ch, G[r].sh)])])]),
   ph  |-> Eager([r \in 1 .. Len(G) |-> Eager([k \in 1 .. Len(G[r].e) |->
             LET RECURSIVE P(_)
                 P(m) == IF m = 0 THEN <<C1>> ELSE LET q == P(m - 1) IN Append(q, CRound(CMul(q[m], G[r].e[k])))
             IN  Eager(P(lmax))])]),
   st  |-> Eager(Starts(G)),
   n   |-> Eager([r \in 1 .. Len(G) |-> Len(G[r].e)]),
   w   |-> Eager([r \in 1 .. Len(G) |-> G[r].w])]
Phase(B, r, k, m) == IF m >= 0 THEN B.ph[r][k][m + 1] ELSE CConj(B.ph[r][k][1 - m])

(* multipoles for both signs of m of one component of a real field *)
FullAlm(a, lmax, l, m) ==
  LET i == AlmIdx(lmax, l, Abs2(m))
      x == <<a[1][i], a[2][i]>>
  IN  IF m >= 0 THEN x ELSE CScl(RInt(Sgn1(m)), CConj(x))
(* the complex spin-s coefficient: a for a scalar, -(E + i B) otherwise *)
SpinAlm(s, lmax, alm, l, m) ==
  IF s = 0 THEN FullAlm(alm[1], lmax, l, m)
  ELSE CScl(RInt(-1), CAdd(FullAlm(alm[1], lmax, l, m), CMul(CI, FullAlm(alm[2], lmax, l, m))))

(* the value of the field with multipoles alm in every pixel *)
Alm2Map(B, alm) ==
  LET lx == B.lmax
      F  == Eager([r \in 1 .. Len(B.n) |-> Eager([m1 \in 1 .. 2 * lx + 1 |->
              LET m == m1 - 1 - lx
                  lo == Max2(Abs2(m), B.s)
              IN  IF lo > lx THEN C0 ELSE CRound(CSumSeq([j \in 1 .. lx - lo + 1 |-> CScl(B.lam[r][m1][lo + j], SpinAlm(B.s, lx, alm, lo + j - 1, m))]))])])
      V  == Eager([r \in 1 .. Len(B.n) |-> Eager([k \in 1 .. B.n[r] |->
              CSumSeq([m1 \in 1 .. 2 * lx + 1 |-> CMul(F[r][m1], Phase(B, r, k, m1 - 1 - lx))])])])
      RECURSIVE Cat(_, _)
      Cat(r, c) == IF r = 0 THEN <<>> ELSE Cat(r - 1, c) \o [k \in 1 .. B.n[r] |-> V[r][k][c]]
  IN  IF B.s = 0 THEN <<Eager(Cat(Len(B.n), 1))>> ELSE <<Eager(Cat(Len(B.n), 1)), Eager(Cat(Len(B.n), 2))>>
(* sum over pixels of area times map times conjugate harmonic *)
Quadrature(B, maps) ==
  LET lx == B.lmax
      Val(r, k) == <<maps[1][B.st[r] + k], IF B.s = 0 THEN RInt(0) ELSE maps[2][B.st[r] + k]>>
      G1 == Eager([r \in 1 .. Len(B.n) |-> Eager([m1 \in 1 .. 2 * lx + 1 |->
              CRound(CScl(B.w[r], CSumSeq([k \in 1 .. B.n[r] |-> CMul(Val(r, k), Phase(B, r, k, lx + 1 - m1))])))])])
      A(l, m) == IF l < B.s THEN C0 ELSE CSumSeq([r \in 1 .. Len(B.n) |-> CScl(B.lam[r][m + lx + 1][l + 1], G1[r][m + lx + 1])])
      AA == Eager([l1 \in 1 .. lx + 1 |-> Eager([m1 \in 1 .. 2 * l1 - 1 |-> A(l1 - 1, m1 - l1)])])
      E(l, m) == IF B.s = 0 THEN AA[l + 1][l + m + 1]
                 ELSE CScl(RFrac(-1, 2), CAdd(AA[l + 1][l + m + 1], CScl(RInt(Sgn1(m)), CConj(AA[l + 1][l - m + 1]))))
      Bm(l, m) == CScl(Half, CMul(CI, CSub(AA[l + 1][l + m + 1], CScl(RInt(Sgn1(m)), CConj(AA[l + 1][l - m + 1])))))
      RECURSIVE Run(_)                                 \* m-major
      Run(m) == IF m > lx THEN <<>> ELSE [j \in 1 .. lx - m + 1 |-> <<m + j - 1, m>>] \o Run(m + 1)
      lms == Eager(Run(0))
      Split(v) == <<Eager([x \in 1 .. Len(v) |-> v[x][1]]), Eager([x \in 1 .. Len(v) |-> v[x][2]])>>
      ES == Split(Eager([j \in 1 .. Len(lms) |-> E(lms[j][1], lms[j][2])]))
      BS == Split(Eager([j \in 1 .. Len(lms) |-> Bm(lms[j][1], lms[j][2])]))
  IN  IF B.s = 0 THEN <<ES>> ELSE <<ES, BS>>
RSubM(x, y) == Eager([c1 \in 1 .. Len(x) |-> Eager([j \in 1 .. Len(x[c1]) |-> RSub(x[c1][j], y[c1][j])])])
RAddM(x, y) == Eager([c1 \in 1 .. Len(x) |-> Eager([j \in 1 .. Len(x[c1]) |-> RAdd(x[c1][j], y[c1][j])])])
(* followed by n transforms of what is left of the map; every step is rounded to 400 bits *)
RndM(x) == Eager([c1 \in 1 .. Len(x) |-> Eager([j \in 1 .. Len(x[c1]) |-> RRound(x[c1][j])])])
RndA(x) == Eager([c1 \in 1 .. Len(x) |-> <<Eager([j \in 1 .. Len(x[c1][1]) |-> RRound(x[c1][1][j])]), Eager([j \in 1 .. Len(x[c1][2]) |-> RRound(x[c1][2][j])])>>])
AddA(x, y) == Eager([c1 \in 1 .. Len(x) |-> RAddM(x[c1], y[c1])])
Map2Alm(B, maps, n) ==
  LET RECURSIVE It(_, _)
      It(a, j) == IF j = 0 THEN a
                  ELSE LET d == RndM(RSubM(maps, Alm2Map(B, a)))
                       IN  It(RndA(AddA(a, Quadrature(B, d))), j - 1)
  IN  It(RndA(Quadrature(B, maps)), n)
(* one column of a rectangular map that covers only part of the circle still weighs as in the full grid; the missing
   pixels count as zero in the residual as well *)
(* all auto- and cross-spectra, pair (a, b) of components at index a * n2 + b *)
Spectra(x, y, lmax) == Eager([j \in 1 .. Len(x) * Len(y) |-> AlmCl(x[(j - 1) \div Len(y) + 1], y[((j - 1) % Len(y)) + 1], lmax)])
(* product of a map with a mask *)
MaskMap(maps, mask) == Eager([c1 \in 1 .. Len(maps) |-> Eager([x \in 1 .. Len(mask) |-> RMul(maps[c1][x], mask[x])])])

(***************************************************************************)
(* Multipoles, up to lmax, of the product of a mask (multipoles wa up to   *)
(* lw) and a spin-s field (multipoles alm up to ls), without reference to  *)
(* any sampling.  q = <<E pure, B pure>>.                                  *)
(***************************************************************************)
LMs(lmax) == LET RECURSIVE Run(_)
                 Run(m) == IF m > lmax THEN <<>> ELSE [j \in 1 .. lmax - m + 1 |-> <<m + j - 1, m>>] \o Run(m + 1)
             IN  Eager(Run(0))
ProductAlm(wa, lw, s, q, alm, ls, lmax) ==
  LET w(L, M) == FullAlm(wa, lw, L, M)
      nc == IF s = 0 THEN 1 ELSE 2
      lms == LMs(lmax)
      From(x, y, l, m) ==
        LET t(k) == CSumSeq([j \in 1 .. 2 * k + 1 |->
                      CMul(IF q[x + 1] THEN (IF x = y THEN CScl(PureRatio(l, k), Kernel(w, lw, 0, 0, l, m, 0, k, j - 1 - k)) ELSE C0)
                           ELSE KComp(w, lw, s, x, y, l, m, k, j - 1 - k),
                           FullAlm(alm[y + 1], ls, k, j - 1 - k))])
        IN  CSumSeq([k1 \in 1 .. ls + 1 |-> t(k1 - 1)])
      V(x) == Eager([j \in 1 .. Len(lms) |-> IF lms[j][1] < s THEN C0 ELSE CSumSeq([y1 \in 1 .. nc |-> From(x, y1 - 1, lms[j][1], lms[j][2])])])
  IN  Eager([x1 \in 1 .. nc |-> LET v == V(x1 - 1) IN <<Eager([j \in 1 .. Len(v) |-> v[j][1]]), Eager([j \in 1 .. Len(v) |-> v[j][2]])>>])
=================================================================================
