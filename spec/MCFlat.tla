--------------------------------- MODULE MCFlat ---------------------------------
(***************************************************************************)
(* Why the flat-sky estimator works, on small patches with rectangular     *)
(* pixels and masks without any symmetry.                                  *)
(*   RoundTrip: the transforms are inverse to each other                   *)
(*   Rotation:  turning the patch by a right angle exchanges x and y and   *)
(*              changes neither E nor B                                    *)
(*   MeanSpectrum: the mean spectrum of masked (purified) fields whose     *)
(*              spectrum vanishes except at one wave number is the pair sum*)
(*   NoLeakage: pure components receive nothing from the other component   *)
(***************************************************************************)
EXTENDS Flat, TLC
CONSTANT Deep
VARIABLES cfg, ready
vars == <<cfg, ready>>

Sizes == {<<3, 3>>, <<3, 5>>, <<5, 5>>}
Spins == 0 .. 2 + Deep
Cuts  == IF Deep = 0 THEN {2} ELSE 0 .. 2
Mode2 == IF Deep = 0 THEN {<<1, 1>>, <<1, 0>>} ELSE {<<1, 1>>, <<1, 0>>, <<-1, 1>>, <<0, 1>>}
Eps == RStr("1e-60")
Close(x, y) == RLe(RAbs(RSub(x, y)), Eps)
CClose(x, y) == Close(x[1], y[1]) /\ Close(x[2], y[2])
GG == Patch(cfg.n[1], cfg.n[2], RFrac(3, 4), RFrac(cfg.n[2] + 1, 7))
(* masks of wave numbers up to 1 in each direction *)
Wave(G, a, b, x, y) == LET f == RAdd(RFrac(2 * a * x, G.nx), RFrac(2 * b * y, G.ny)) IN <<RCosPi(f), RSinPi(f)>>
MaskOf(G, d) == Eager([p \in 1 .. G.n |-> LET x == (p - 1) % G.nx
                                          y == (p - 1) \div G.nx
                                          T(a, b, u, v) == LET w == Wave(G, a, b, x, y) IN RAdd(RMul(u, w[1]), RMul(v, w[2]))
                                      IN  RRound(RAdd(RInt(1), RAdd(RAdd(T(1, 0, RFrac(d, 5), RFrac(-1, 7)), T(0, 1, RFrac(1, 4), RFrac(d, 9))), RAdd(T(1, 1, RFrac(1, 3), RFrac(1 - d, 6)), T(1, -1, RFrac(-1, 8), RFrac(d, 11))))))])
(* every wave number has its own band *)
CutOf(G) == CASE cfg.cut = 0 -> <<<<RInt(1), RInt(-1)>>, <<RInt(1), RInt(-1)>>>>
           [] cfg.cut = 1 -> <<<<RNeg(RMul(Half0, G.dx)), RMul(Half0, G.dx)>>, <<RInt(1), RInt(-1)>>>>
           [] OTHER       -> <<<<RMul(Half0, G.dx), RMul(RFrac(3, 2), G.dx)>>, <<RNeg(RMul(RFrac(3, 2), G.dy)), RMul(RFrac(1, 3), G.dy)>>>>
K0(G) == RMul(RFrac(1, 3), IF RLe(G.dx, G.dy) THEN G.dx ELSE G.dy)
B3(G) == LET d == K0(G)
             e == <<d, RMul(RInt(4), d), RMul(RInt(6), d), RMul(RInt(30), d)>>
         IN [l0 |-> SubSeq(e, 1, 3), lf |-> SubSeq(e, 2, 4)]
Bm(G) == BandModes(G, B3(G), CutOf(G))
K2(G) == Mode(G, cfg.k[1], cfg.k[2])
Unit(G, s, y, h) == LET j2 == K2(G)
                       j3 == Opp(G, j2) IN Eager([k \in 1 .. NM(s) |-> Eager([j \in 1 .. G.n |->
   IF k # y THEN C0 ELSE LET u == IF h = 1 THEN C1 ELSE CI IN IF j = j2 THEN u ELSE IF j = j3 THEN CConj(u) ELSE C0])])
Resp(G, s, q, w, y, h) == Modes(G, s, q, w, Inv(G, s, Unit(G, s, y, h)))
N1 == NM(cfg.s[1])
N2 == NM(cfg.s[2])
Q1 == IF cfg.s[1] = 2 THEN cfg.q ELSE <<0, 0>>
Q2 == IF cfg.s[2] = 2 THEN (IF cfg.s[1] = 2 THEN <<cfg.q[2], cfg.q[1]>> ELSE cfg.q) ELSE <<0, 0>>
Mean(G, W1, W2) ==
  LET bm == Bm(G)
      R1 == Eager([y \in 1 .. N1 |-> Eager([h \in 1 .. 2 |-> Resp(G, cfg.s[1], Q1, W1, y, h)])])
      R2 == Eager([y \in 1 .. N2 |-> Eager([h \in 1 .. 2 |-> Resp(G, cfg.s[2], Q2, W2, y, h)])])
      v == RDiv(RMul(G.lx, G.ly), RMul(Two, RMul(TwoPi, TwoPi)))
      S(y) == LET a == SpectraF(G, R1[(y \div N2) + 1][1], R2[(y % N2) + 1][1], bm)
                  b == SpectraF(G, R1[(y \div N2) + 1][2], R2[(y % N2) + 1][2], bm)
              IN  Eager([p \in 1 .. N1 * N2 |-> Eager([x \in 1 .. 3 |-> RMul(v, RAdd(a[p][x], b[p][x]))])])
  IN  Eager([y1 \in 1 .. N1 * N2 |-> S(y1 - 1)])
Pairs(G, W1, W2) == MatF(G, [s1 |-> cfg.s[1], q1 |-> Q1, s2 |-> cfg.s[2], q2 |-> Q2, P |-> MaskPower(G, W1, W2), bm |-> Eager([j \in 1 .. G.n |-> RInt(1)])],
              Bm(G), <<<<K2(G), Opp(G, K2(G))>>>>)
MeanSpectrum == ready => LET G == GG
                             W1 == MaskOf(G, 1)
                             W2 == MaskOf(G, 2)
                             m == Mean(G, W1, W2)
                             p == Pairs(G, W1, W2)
                             n == N1 * N2
                         IN  \A x \in 1 .. n, y \in 1 .. n, b \in 1 .. 3 : Close(m[y][x][b], p[n * (b - 1) + x][y])
NoLeakage == (ready /\ cfg.s[1] = 2) => LET G == GG
                                               W1 == MaskOf(G, 1) IN \A x \in 1 .. 2, h \in 1 .. 2 : Q1[x] = 1 =>
               LET a == Resp(G, 2, Q1, W1, 3 - x, h)[x] IN \A j \in 2 .. G.n : CClose(a[j], C0)
RoundTrip == ready => LET G == GG
                          a == Unit(G, cfg.s[1], 1, 1)
                          b == Fwd(G, cfg.s[1], Inv(G, cfg.s[1], a))
                      IN  \A k \in 1 .. N1, j \in 1 .. G.n : CClose(a[k][j], b[k][j])
(* a quarter turn: pixel (x, y) of the new patch is (y, -x) of the old one; (Q + i U) gains (-i)^s *)
Rotation == ready =>
  LET G == GG
      H == Patch(G.ny, G.nx, G.ly, G.lx)
      s == cfg.s[1]
      maps == Eager([k \in 1 .. N1 |-> Eager([p \in 1 .. G.n |-> RFrac((7 * p * p + 3 * p * k + k) % 11, 5)])])
      Old(p) == LET x == (p - 1) % H.nx
                    y == (p - 1) \div H.nx IN Mode(G, y, -x)
      t == CConj(IPow(s))
      new == IF s = 0 THEN <<Eager([p \in 1 .. G.n |-> maps[1][Old(p)]])>>
             ELSE <<Eager([p \in 1 .. G.n |-> RSub(RMul(t[1], maps[1][Old(p)]), RMul(t[2], maps[2][Old(p)]))]),
                    Eager([p \in 1 .. G.n |-> RAdd(RMul(t[1], maps[2][Old(p)]), RMul(t[2], maps[1][Old(p)]))])>>
      a == Fwd(G, s, maps)
      b == Fwd(H, s, new)
  IN  \A k \in 1 .. N1, j \in 2 .. G.n : CClose(b[k][j], a[k][Old(j)])

Init == cfg = <<>> /\ ready = FALSE
Next == \/ /\ cfg = <<>>
           /\ \E n \in Sizes, s1 \in Spins, s2 \in Spins, q \in (0 .. 1) \X (0 .. 1), u \in Cuts, k \in Mode2 :
                 /\ (q # <<0, 0>>) => (2 \in {s1, s2} /\ n = <<5, 5>>)
                 /\ cfg' = [n |-> n, s |-> <<s1, s2>>, q |-> q, cut |-> u, k |-> k]
           /\ ready' = FALSE
        \/ cfg # <<>> /\ ~ready /\ ready' = TRUE /\ cfg' = cfg
Spec == Init /\ [][Next]_vars
=================================================================================
