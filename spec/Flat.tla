---------------------------------- MODULE Flat ----------------------------------
(***************************************************************************)
(* Flat-sky patches: nx x ny pixels on lx x ly radians, periodic.          *)
(* A map is a vector, pixel (x, y) at y nx + x + 1; so are its Fourier     *)
(* coefficients, mode (ix, iy) at iy nx + ix + 1, wave number 2 pi ix / lx *)
(* with ix counted from -nx/2 (exclusive) to nx/2.                         *)
(***************************************************************************)
EXTENDS BinsFlat, Kernels

Two     == RInt(2)
TwoPi   == RMul(Two, RPi)
Half0   == RFrac(1, 2)
CRnd(x) == <<RRound(x[1]), RRound(x[2])>>
Signed(i1, n) == IF 2 * i1 <= n THEN i1 ELSE i1 - n
Twiddle(n) == [c |-> Eager([k \in 1 .. n |-> Eager([x \in 1 .. n |-> RCosPi(RFrac(2 * (((k - 1) * (x - 1)) % n), n))])]),
               s |-> Eager([k \in 1 .. n |-> Eager([x \in 1 .. n |-> RSinPi(RFrac(2 * (((k - 1) * (x - 1)) % n), n))])])]
Patch(nx, ny, lx, ly) ==
  LET dx == RDiv(TwoPi, lx)
      dy == RDiv(TwoPi, ly)
      n  == nx * ny
      kx == Eager([j \in 1 .. n |-> RMul(RInt(Signed((j - 1) % nx, nx)), dx)])
      ky == Eager([j \in 1 .. n |-> RMul(RInt(Signed((j - 1) \div nx, ny)), dy)])
      k  == Eager([j \in 1 .. n |-> IF j = 1 THEN RInt(0) ELSE RSqrt(RAdd(RMul(kx[j], kx[j]), RMul(ky[j], ky[j])))])
  IN  [nx |-> nx, ny |-> ny, n |-> n, lx |-> lx, ly |-> ly, kx |-> kx, ky |-> ky, k |-> k, dx |-> dx, dy |-> dy,
       u |-> Eager([j \in 1 .. n |-> IF j = 1 THEN C1 ELSE CRnd(<<RDiv(kx[j], k[j]), RDiv(ky[j], k[j])>>)]),
       tx |-> Twiddle(nx), ty |-> Twiddle(ny)]
Mode(G, ix, iy) == ((iy + G.ny) % G.ny) * G.nx + ((ix + G.nx) % G.nx) + 1
Opp(G, j)       == Mode(G, -((j - 1) % G.nx), -((j - 1) \div G.nx))
PosX(G, j)      == 2 * ((j - 1) % G.nx) <= G.nx
(* e^{i s phi} of every mode *)
CPow(x, s) == LET RECURSIVE P(_)
                  P(j) == IF j = 0 THEN C1 ELSE CMul(P(j - 1), x) IN CRnd(P(s))
Turns(G, s) == Eager([j \in 1 .. G.n |-> CPow(G.u[j], s)])

(* Discrete Fourier transform of a real map, times lx ly / (2 pi nx ny). *)
Dft(G, m) ==
  LET f == RDiv(RMul(G.lx, G.ly), RMul(TwoPi, RInt(G.n)))
      R == Eager([y \in 1 .. G.ny |-> LET row == Eager([x \in 1 .. G.nx |-> m[(y - 1) * G.nx + x]])
                                      IN  Eager([k \in 1 .. G.nx |-> <<RDot(row, G.tx.c[k]), RDot(row, G.tx.s[k])>>])])
      C == Eager([k \in 1 .. G.nx |-> <<Eager([y \in 1 .. G.ny |-> R[y][k][1]]), Eager([y \in 1 .. G.ny |-> R[y][k][2]])>>])
  IN  Eager([j \in 1 .. G.n |-> LET k == ((j - 1) % G.nx) + 1
                                    q == ((j - 1) \div G.nx) + 1
                                IN  <<RRound(RMul(f, RSub(RDot(C[k][1], G.ty.c[q]), RDot(C[k][2], G.ty.s[q])))),
                                      RRound(RMul(RNeg(f), RAdd(RDot(C[k][2], G.ty.c[q]), RDot(C[k][1], G.ty.s[q]))))>>])
(* Its inverse: the modes with ix < 0 are the conjugates of their opposites. *)
IDft(G, a) ==
  LET f == RDiv(TwoPi, RMul(G.lx, G.ly))
      h == G.nx \div 2 + 1
      A == Eager([k \in 1 .. h |-> <<Eager([q \in 1 .. G.ny |-> a[(q - 1) * G.nx + k][1]]), Eager([q \in 1 .. G.ny |-> a[(q - 1) * G.nx + k][2]])>>])
      w(k) == IF k = 1 \/ 2 * (k - 1) = G.nx THEN f ELSE RMul(Two, f)
      F == Eager([y \in 1 .. G.ny |-> LET V == Eager([k \in 1 .. h |-> <<RMul(w(k), RSub(RDot(A[k][1], G.ty.c[y]), RDot(A[k][2], G.ty.s[y]))),
                                                                        RMul(w(k), RAdd(RDot(A[k][2], G.ty.c[y]), RDot(A[k][1], G.ty.s[y])))>>])
                                      IN  <<Eager([k \in 1 .. h |-> V[k][1]]), Eager([k \in 1 .. h |-> V[k][2]])>>])
  IN  Eager([j \in 1 .. G.n |-> LET x == ((j - 1) % G.nx) + 1
                                    y == ((j - 1) \div G.nx) + 1
                                IN  RRound(RSub(RDot(F[y][1], Eager([k \in 1 .. h |-> G.tx.c[k][x]])), RDot(F[y][2], Eager([k \in 1 .. h |-> G.tx.s[k][x]]))))])
(* E and B modes of a spin-s field: E + i B = -(i^s) e^{i s phi} (Q + i U), mode by mode. *)
IPow(s) == CASE s % 4 = 0 -> C1 [] s % 4 = 1 -> CI [] s % 4 = 2 -> <<RInt(-1), RInt(0)>> [] OTHER -> <<RInt(0), RInt(-1)>>
Herm(G, h(_)) == Eager([j \in 1 .. G.n |-> IF PosX(G, j) THEN h(j) ELSE CConj(h(Opp(G, j)))])
Fwd(G, s, maps) ==
  IF s = 0 THEN <<Dft(G, maps[1])>>
  ELSE LET q == Dft(G, maps[1])
           v == Dft(G, maps[2])
           t == Turns(G, s)
           g == CScl(RInt(-1), IPow(s))
           E(j) == CMul(g, CSub(CScl(t[j][1], q[j]), CScl(t[j][2], v[j])))
           B(j) == CMul(g, CAdd(CScl(t[j][2], q[j]), CScl(t[j][1], v[j])))
       IN  <<Herm(G, E), Herm(G, B)>>
Inv(G, s, alm) ==
  IF s = 0 THEN <<IDft(G, alm[1])>>
  ELSE LET t == Turns(G, s)
           g == CScl(RInt(-1), CConj(IPow(s)))
           Q(j) == CMul(g, CAdd(CScl(t[j][1], alm[1][j]), CScl(t[j][2], alm[2][j])))
           U(j) == CMul(g, CSub(CScl(t[j][1], alm[2][j]), CScl(t[j][2], alm[1][j])))
       IN  <<IDft(G, Herm(G, Q)), IDft(G, Herm(G, U))>>
ZeroModes(G) == Eager([j \in 1 .. G.n |-> C0])
MulMap(m, w) == Eager([c1 \in 1 .. Len(m) |-> Eager([x \in 1 .. Len(w) |-> RMul(m[c1][x], w[x])])])
DotFlat(G, a, b) == RMul(RDiv(RMul(G.lx, G.ly), RInt(G.n)), RSum(Eager([c1 \in 1 .. Len(a) |-> RDot(a[c1], b[c1])])))

(***************************************************************************)
(* Purified modes of a masked spin-2 field: the mask, its gradient (a      *)
(* spin-1 field) and its second derivative (spin 2).                       *)
(***************************************************************************)
ConjProd(w, m) ==
  <<Eager([x \in 1 .. Len(m[1]) |-> RAdd(RMul(w[1][x], m[1][x]), RMul(w[2][x], m[2][x]))]),
    Eager([x \in 1 .. Len(m[1]) |-> RSub(RMul(w[1][x], m[2][x]), RMul(w[2][x], m[1][x]))])>>
PureModes(G, q, w, maps) ==
  LET a0 == Fwd(G, 2, MulMap(maps, w))
      wa == Dft(G, w)
      d1 == Inv(G, 1, <<Eager([j \in 1 .. G.n |-> CScl(RNeg(G.k[j]), wa[j])]), ZeroModes(G)>>)
      d2 == Inv(G, 2, <<Eager([j \in 1 .. G.n |-> CScl(RNeg(RMul(G.k[j], G.k[j])), wa[j])]), ZeroModes(G)>>)
      p1 == Fwd(G, 1, ConjProd(d1, maps))
      m2 == ConjProd(d2, maps)
      p2 == <<Dft(G, m2[1]), Dft(G, m2[2])>>
      P(c1) == IF q[c1] = 0 THEN a0[c1]
              ELSE Eager([j \in 1 .. G.n |-> IF j = 1 THEN a0[c1][j]
                     ELSE CRnd(CAdd(a0[c1][j], CSub(CScl(RDiv(Two, G.k[j]), p1[c1][j]), CScl(RDiv(RInt(1), RMul(G.k[j], G.k[j])), p2[c1][j]))))])
  IN  <<P(1), P(2)>>
Modes(G, s, q, w, maps) == IF q[1] = 1 \/ q[2] = 1 THEN PureModes(G, q, w, maps) ELSE Fwd(G, s, MulMap(maps, w))
(* templates: maps - their best fit, all masked *)
CombineF(maps, al, ts) == Eager([c1 \in 1 .. Len(maps) |-> Eager([x \in 1 .. Len(maps[c1]) |->
                              RSub(maps[c1][x], RSum(Eager([p \in 1 .. Len(ts) |-> RMul(al[p], ts[p][c1][x])])))])])
GramF(G, ts)   == Eager([p \in 1 .. Len(ts) |-> Eager([r \in 1 .. Len(ts) |-> DotFlat(G, ts[p], ts[r])])])
BestFitF(G, maps, ts) == IF Len(ts) = 0 THEN <<>> ELSE RMatVec(RInv(GramF(G, ts)), Eager([p \in 1 .. Len(ts) |-> DotFlat(G, ts[p], maps)]))

(***************************************************************************)
(* Spectra: mean over the modes of a band that are not in the excluded     *)
(* strips cx[1] <= kx <= cx[2], cy[1] <= ky <= cy[2].                      *)
(***************************************************************************)
Within(v, r) == RLe(r[1], v) /\ RLe(v, r[2])
Kept(G, cut) == Eager([j \in 1 .. G.n |-> ~(Within(G.kx[j], cut[1]) \/ Within(G.ky[j], cut[2]))])
BandsOf(G, b) == Eager([j \in 1 .. G.n |-> BandOf(b, G.k[j])])
RECURSIVE ListOf(_, _, _)
ListOf(v, x, j) == IF j = 0 THEN <<>> ELSE IF v[j] = x THEN Append(ListOf(v, x, j - 1), j) ELSE ListOf(v, x, j - 1)
(* the modes of every band *)
BandModes(G, b, cut) ==
  LET kp == Kept(G, cut)
      bd == BandsOf(G, b)
      v  == Eager([j \in 1 .. G.n |-> IF kp[j] THEN bd[j] ELSE 0])
  IN  Eager([x \in 1 .. Len(b.l0) |-> ListOf(v, x, G.n)])
AllModes(G, b) == LET bd == BandsOf(G, b) IN Eager([x \in 1 .. Len(b.l0) |-> ListOf(bd, x, G.n)])
ReProd(x, y) == RAdd(RMul(x[1], y[1]), RMul(x[2], y[2]))
RingMean(G, a, b, js) ==
  IF Len(js) = 0 THEN RInt(0)
  ELSE RRound(RDiv(RMul(RDiv(RMul(TwoPi, TwoPi), RMul(G.lx, G.ly)), RSum(Eager([z \in 1 .. Len(js) |-> ReProd(a[js[z]], b[js[z]])]))), RInt(Len(js))))
SpectraF(G, x, y, bm) == Eager([p \in 1 .. Len(x) * Len(y) |-> Eager([b \in 1 .. Len(bm) |-> RingMean(G, x[(p - 1) \div Len(y) + 1], y[((p - 1) % Len(y)) + 1], bm[b])])])

(***************************************************************************)
(* Mode coupling: the mean spectrum of a masked field in a band, from a    *)
(* spectrum (component pair p) in a set of modes.                          *)
(* e: E-from-E (mix = FALSE) and B-from-E factors between two modes.       *)
(***************************************************************************)
NM(s) == IF s = 0 THEN 1 ELSE 2
(* component x of mode i from component y of mode j *)
Turn(G, s, t, q, x, y, i, j) ==
  IF s = 0 THEN RInt(1)
  ELSE IF q[x + 1] = 1 THEN (IF x # y THEN RInt(0) ELSE IF i = 1 THEN (IF j = 1 THEN RInt(1) ELSE RInt(0))
                             ELSE LET r == RDiv(G.k[j], G.k[i]) IN RMul(r, r))
  ELSE LET d == CMul(t[i], CConj(t[j])) IN IF x = y THEN d[1] ELSE IF x = 1 THEN d[2] ELSE RNeg(d[2])
(* the cross-power of two masks at every separation, normalised to mean products of the masks *)
MaskPower(G, w1, w2) ==
  LET a == Dft(G, w1)
      b == Dft(G, w2)
      f == RDiv(RMul(TwoPi, TwoPi), RMul(RMul(G.lx, G.lx), RMul(G.ly, G.ly)))
  IN  Eager([j \in 1 .. G.n |-> RRound(RMul(f, ReProd(a[j], b[j])))])
Sep(G, i, j) == Mode(G, ((i - 1) % G.nx) - ((j - 1) % G.nx), ((i - 1) \div G.nx) - ((j - 1) \div G.nx))
(* F = [s1, q1, s2, q2, P, bm (beam at every mode)] : sum over modes i in is, j in js, divided by the number of i *)
PairSum(G, F, t1, t2, x1, x2, y1, y2, is, js) ==
  IF Len(is) = 0 THEN RInt(0)
  ELSE RRound(RDiv(RSum(Eager([z \in 1 .. Len(is) |-> RRound(RSum(Eager([v \in 1 .. Len(js) |->
         LET i == is[z]
             j == js[v]
         IN  RMul(RMul(F.P[Sep(G, i, j)], F.bm[j]), RMul(Turn(G, F.s1, t1, F.q1, x1, y1, i, j), Turn(G, F.s2, t2, F.q2, x2, y2, i, j)))])))])), RInt(Len(is))))
(* the matrix over component pairs: rows band * n + pair, columns set * n + pair *)
MatF(G, F, rows, cols) ==
  LET n2 == NM(F.s2)
      n  == NM(F.s1) * n2
      t1 == Turns(G, F.s1)
      t2 == Turns(G, F.s2)
  IN  Eager([r \in 1 .. n * Len(rows) |-> Eager([v \in 1 .. n * Len(cols) |->
        LET a == (r - 1) % n
            b == (v - 1) % n
        IN  PairSum(G, F, t1, t2, a \div n2, a % n2, b \div n2, b % n2, rows[(r - 1) \div n + 1], cols[(v - 1) \div n + 1])])])
(* joint T, E, B: TT, TE, TB, EE, EB, BE, BB *)
MatTEBF(G, F, rows, cols) ==
  LET no == <<0, 0>>
      f(s1, q1, s2, q2) == [s1 |-> s1, q1 |-> q1, s2 |-> s2, q2 |-> q2, P |-> F.P, bm |-> F.bm]
      T == MatF(G, f(0, no, 0, no), rows, cols)
      X == MatF(G, f(0, no, F.s2, F.q2), rows, cols)
      S == MatF(G, f(F.s2, F.q2, F.s2, F.q2), rows, cols)
      ent(a, b, l, k) == CASE a = 0 /\ b = 0 -> T[l + 1][k + 1]
                           [] a \in {1, 2} /\ b \in {1, 2} -> X[2 * l + a][2 * k + b]
                           [] a >= 3 /\ b >= 3 -> S[4 * l + a - 2][4 * k + b - 2]
                           [] OTHER -> RInt(0)
  IN  Eager([r \in 1 .. 7 * Len(rows) |-> Eager([v \in 1 .. 7 * Len(cols) |-> ent((r - 1) % 7, (v - 1) % 7, (r - 1) \div 7, (v - 1) \div 7)])])
(* Rings of width min(2 pi / lx, 2 pi / ly), as many as fit below the largest wave number. *)
RingsOf(G) ==
  LET d  == IF RLe(G.dx, G.dy) THEN G.dx ELSE G.dy
      e  == RStr("1e-30")
      F(x) == RFloor(RAdd(RDiv(x, d), e))
      kx == RMul(G.dx, RInt(G.nx \div 2))
      ky == RMul(G.dy, RInt(G.ny \div 2))
      n  == F(RSqrt(RAdd(RMul(kx, kx), RMul(ky, ky))))
      v  == Eager([j \in 1 .. G.n |-> F(G.k[j]) + 1])
  IN  Eager([x \in 1 .. n |-> ListOf(v, x, G.n)])
RingCentres(G) == LET d == IF RLe(G.dx, G.dy) THEN G.dx ELSE G.dy IN Eager([x \in 1 .. Len(RingsOf(G)) |-> RMul(d, RFrac(2 * x - 1, 2))])
(* a function of the wave number given by samples: constant below the first, linear between, zero from the last on *)
Sampled(xs, ys, k) == IF RLe(k, xs[1]) THEN ys[1] ELSE IF RLe(xs[Len(xs)], k) THEN RInt(0) ELSE Interp(xs, ys, k)
AtModes(G, xs, ys) == Eager([j \in 1 .. G.n |-> Sampled(xs, ys, G.k[j])])
MeanOver(v, js) == IF Len(js) = 0 THEN RInt(0) ELSE RDiv(RSum(Eager([z \in 1 .. Len(js) |-> v[js[z]]])), RInt(Len(js)))
(***************************************************************************)
(* Template removal.  D = [s, q, w, f, iM, af]: masked independent         *)
(* templates f, the inverse iM of their Gram matrix, their modes af        *)
(* (purified like the field).  C: guess spectra (component pairs) at every *)
(* mode.                                                                   *)
(***************************************************************************)
ModesOf(G, D, x) == Modes(G, D.s, D.q, D.w, x)
CleanModes(G, D, x, a) ==
  IF Len(D.f) = 0 THEN a
  ELSE LET wx == MulMap(x, D.w)
           al == RMatVec(D.iM, Eager([p \in 1 .. Len(D.f) |-> DotFlat(G, D.f[p], wx)]))
       IN  Eager([k \in 1 .. Len(a) |-> Eager([j \in 1 .. G.n |-> CSub(a[k][j], CSumSeq(Eager([p \in 1 .. Len(al) |-> CScl(al[p], D.af[p][k][j])])))])])
AddF(x, y) == Eager([p \in 1 .. Len(x) |-> Eager([b \in 1 .. Len(x[p]) |-> RRound(RAdd(x[p][b], y[p][b]))])])
SclF(r, x) == Eager([p \in 1 .. Len(x) |-> Eager([b \in 1 .. Len(x[p]) |-> RRound(RMul(r, x[p][b]))])])
ZeroF(n, nb) == Eager([p \in 1 .. n |-> Eager([b \in 1 .. nb |-> RInt(0)])])
UnitF(G, s, y, j, h) == LET o == Opp(G, j)
                            u == IF h = 1 THEN C1 ELSE CI
                        IN  Eager([k \in 1 .. NM(s) |-> Eager([z \in 1 .. G.n |-> IF k # y THEN C0 ELSE IF z = j THEN u ELSE IF z = o THEN CConj(u) ELSE C0])])
(* mean change of the spectra, odd nx and ny: the independent real and imaginary parts of the modes have equal variances *)
(* (the uniform mode has only the part that makes the map real) *)
EnsembleF(G, D1, D2, C, bm) ==
  LET n1 == NM(D1.s)
      n2 == NM(D2.s)
      js == {j \in 1 .. G.n : j <= Opp(G, j)}
      v  == RDiv(RMul(G.lx, G.ly), RMul(TwoPi, TwoPi))
      Resp(D, y, j, h) == LET x == Inv(G, D.s, UnitF(G, D.s, y, j, h))
                              a == ModesOf(G, D, x) IN <<a, CleanModes(G, D, x, a)>>
      RECURSIVE Sum(_, _)
      Sum(todo, acc) == IF todo = {} THEN acc
        ELSE LET jh == CHOOSE z \in todo : TRUE
                 j  == jh[1]
                 A  == Eager([y \in 1 .. n1 |-> Resp(D1, y, j, jh[2])])
                 B  == Eager([y \in 1 .. n2 |-> Resp(D2, y, j, jh[2])])
                 f  == IF j = Opp(G, j) THEN v ELSE RMul(Half0, v)
                 T(p) == LET a == A[(p - 1) \div n2 + 1]
                             b == B[((p - 1) % n2) + 1]
                         IN  SclF(RMul(f, C[p][j]), AddF(SpectraF(G, a[2], b[2], bm), SclF(RInt(-1), SpectraF(G, a[1], b[1], bm))))
                 RECURSIVE P(_, _)
                 P(p, x) == IF p = 0 THEN x ELSE P(p - 1, AddF(x, T(p)))
             IN  Sum(todo \ {jh}, P(n1 * n2, acc))
  IN  Sum(js \X {1, 2}, ZeroF(n1 * n2, Len(bm)))
(* the closed form *)
MulC(G, C, n1, n2, a, tr) ==
  Eager([k \in 1 .. (IF tr THEN n1 ELSE n2) |-> Eager([j \in 1 .. G.n |->
     CSumSeq(Eager([k1 \in 1 .. Len(a) |-> CScl(C[IF tr THEN (k - 1) * n2 + k1 ELSE (k1 - 1) * n2 + k][j], a[k1][j])]))])])
BiasF(G, D1, D2, C, bm) ==
  LET n1 == NM(D1.s)
      n2 == NM(D2.s)
      k1 == Len(D1.f)
      k2 == Len(D2.f)
      T(D, x) == Fwd(G, D.s, MulMap(x, D.w))
      x2 == Eager([j \in 1 .. k1 |-> Inv(G, D2.s, MulC(G, C, n1, n2, T(D1, D1.f[j]), FALSE))])
      x1 == Eager([j \in 1 .. k2 |-> Inv(G, D1.s, MulC(G, C, n1, n2, T(D2, D2.f[j]), TRUE))])
      t2 == Eager([j \in 1 .. k1 |-> ModesOf(G, D2, x2[j])])
      t1 == Eager([j \in 1 .. k2 |-> ModesOf(G, D1, x1[j])])
      pr == Eager([j \in 1 .. k1 |-> Eager([r \in 1 .. k2 |-> DotFlat(G, D1.f[j], MulMap(x1[r], D1.w))])])
      Q  == IF k1 = 0 \/ k2 = 0 THEN <<>> ELSE RMatMul(RMatMul(D1.iM, pr), D2.iM)
      RECURSIVE S1(_, _), S2(_, _), S3(_, _)
      S1(j, acc) == IF j = 0 THEN acc ELSE LET x == ((j - 1) \div k1) + 1
                                               y == ((j - 1) % k1) + 1
                                           IN  S1(j - 1, AddF(acc, SclF(RNeg(D1.iM[x][y]), SpectraF(G, D1.af[x], t2[y], bm))))
      S2(j, acc) == IF j = 0 THEN acc ELSE LET x == ((j - 1) \div k2) + 1
                                               y == ((j - 1) % k2) + 1
                                           IN  S2(j - 1, AddF(acc, SclF(RNeg(D2.iM[x][y]), SpectraF(G, t1[y], D2.af[x], bm))))
      S3(j, acc) == IF j = 0 THEN acc ELSE LET x == ((j - 1) \div k2) + 1
                                               y == ((j - 1) % k2) + 1
                                           IN  S3(j - 1, AddF(acc, SclF(Q[x][y], SpectraF(G, D1.af[x], D2.af[y], bm))))
  IN  S3(k1 * k2, S2(k2 * k2, S1(k1 * k1, ZeroF(n1 * n2, Len(bm)))))
=================================================================================
