------------------------------- MODULE TraceSphere -------------------------------
(* Recorded transforms against module Sphere. *)
EXTENDS Conf, Sphere

(* e.grid: hpx nside, or car N j0 n M m q (the number of columns present is m; the ring has M) *)
Grid(g) == IF g.kind = "hpx" THEN Hpx(g.nside) ELSE Car(g.N, g.j0, g.n, g.M, g.m, RStr(g.q))
FullGrid(g) == IF g.kind = "hpx" THEN Hpx(g.nside) ELSE Car(g.N, g.j0, g.n, g.M, g.M, RStr(g.q))
(* absent columns are zeros *)
Padded(g, v) == IF g.kind = "hpx" \/ g.m = g.M THEN v
                ELSE Eager([x \in 1 .. g.n * g.M |-> LET col == (x - 1) % g.M
                                                         row == (x - 1) \div g.M
                                                     IN  IF col < g.m THEN v[row * g.m + col + 1] ELSE RInt(0)])
RArr(x) == Eager([c1 \in 1 .. Len(x) |-> Eager(RVec(x[c1]))])
(* multipoles are recorded as [re, im] of [component][index] *)
RAlm(x) == Eager([c1 \in 1 .. Len(x) |-> <<Eager(RVec(x[c1][1])), Eager(RVec(x[c1][2]))>>])
Rel(e)  == RStr(e.tol)

SStart(cs) == 0
JudgeA2M(e) == NearRel("alm2map", e.map, Alm2Map(Basis(Grid(e.grid), e.s, e.lmax), RAlm(e.alm)), Rel(e))
JudgeM2A(e) ==
  LET x == RArr(e.map)
      p == Eager([c1 \in 1 .. Len(x) |-> Padded(e.grid, x[c1])])
      B == Basis(FullGrid(e.grid), e.s, e.lmax)
  IN  NearRel("map2alm", e.alm, Map2Alm(B, p, e.niter), Rel(e))
(* single harmonics in single pixels, at any resolution *)
RingOf(g, r) == IF g.kind = "hpx" THEN HpxRing(g.nside, r) ELSE LET G == Car(g.N, g.j0 + r - 1, 1, g.M, g.m, RStr(g.q)) IN G[1]
Har(g, s, p, l, m) ==      \* sY_lm at pixel p = <<ring, position>>
  LET R == RingOf(g, p[1])
      lon == R.e[p[2]]
      RECURSIVE P(_)
      P(n) == IF n = 0 THEN C1 ELSE CMul(lon, P(n - 1))
      z == IF m >= 0 THEN P(m) ELSE CConj(P(-m))
  IN  CScl(SLambda(s, l, m, R.ch, R.sh), z)
JudgePt(e) ==
  LET V(j) == LET q == e.pts[j] IN
        LET a == RStr(e.amp)
            z == IF e.im = 1 THEN CScl(a, CI) ELSE CScl(a, C1)
            A(m) == IF m = e.m THEN z ELSE CScl(RInt(Sgn1(e.m)), CConj(z))
            h(m) == CMul(Har(e.grid, e.s, <<q[1], q[2]>>, e.l, m), A(m))
            t == IF e.m = 0 THEN h(0) ELSE CAdd(h(e.m), h(-e.m))
        IN  CASE e.s = 0 -> <<t[1]>>
              [] e.x = 0 -> <<RNeg(t[1]), RNeg(t[2])>>
              [] OTHER   -> LET u == CMul(CI, t) IN <<RNeg(u[1]), RNeg(u[2])>>
  IN  Near("alm2map_sample", e.vals, Eager([j \in 1 .. Len(e.pts) |-> V(j)]), RMul(Rel(e), RInt(e.l + 1)))
(* quadrature of a map with a single non-zero pixel *)
JudgeQpt(e) ==
  LET v == IF e.s = 0 THEN <<RStr(e.v[1]), RInt(0)>> ELSE <<RStr(e.v[1]), RStr(e.v[2])>>
      R == RingOf(e.grid, e.p[1])
      A(l, m) == CScl(R.w, CMul(v, CConj(Har(e.grid, e.s, e.p, l, m))))
      E(l, m) == IF e.s = 0 THEN A(l, m) ELSE CScl(RFrac(-1, 2), CAdd(A(l, m), CScl(RInt(Sgn1(m)), CConj(A(l, -m)))))
      Bm(l, m) == CScl(Half, CMul(CI, CSub(A(l, m), CScl(RInt(Sgn1(m)), CConj(A(l, -m))))))
      V(j) == LET q == e.lms[j] IN IF q[1] < e.s THEN (IF e.s = 0 THEN <<C0>> ELSE <<C0, C0>>)
                                   ELSE IF e.s = 0 THEN <<E(q[1], q[2])>> ELSE <<E(q[1], q[2]), Bm(q[1], q[2])>>
  IN  Near("map2alm_sample", e.vals, Eager([j \in 1 .. Len(e.lms) |-> V(j)]), RMul(RMul(Rel(e), R.w), RInt(e.lmax + 1)))
(* a field whose maps are not zero in a few pixels only: maps times mask, multipoles, and those of the mask *)
JudgePts(e) ==
  LET nm == IF e.s = 0 THEN 1 ELSE 2
      W(k) == IF e.moi = 1 THEN RInt(1) ELSE RStr(e.mv[k])
      VV(k) == <<RMul(W(k), RStr(e.fv[k][1])), IF nm = 1 THEN RInt(0) ELSE RMul(W(k), RStr(e.fv[k][2]))>>
      n == Len(e.pts)
      B(s, q, ps, v(_), l, m) == LET R == RingOf(e.grid, ps[q][1]) IN CScl(R.w, CMul(v(q), CConj(Har(e.grid, s, ps[q], l, m))))
      A(l, m) == CSumSeq([q \in 1 .. n |-> B(e.s, q, e.pts, VV, l, m)])
      MM(q) == <<RStr(e.mv[q]), RInt(0)>>
      M(l, m) == CSumSeq([q \in 1 .. n |-> B(0, q, e.pts, MM, l, m)])
      E(l, m) == IF e.s = 0 THEN A(l, m) ELSE CScl(RFrac(-1, 2), CAdd(A(l, m), CScl(RInt(Sgn1(m)), CConj(A(l, -m)))))
      Bm(l, m) == CScl(Half, CMul(CI, CSub(A(l, m), CScl(RInt(Sgn1(m)), CConj(A(l, -m))))))
      V(q) == IF q[1] < e.s THEN (IF e.s = 0 THEN <<C0>> ELSE <<C0, C0>>)
              ELSE IF e.s = 0 THEN <<E(q[1], q[2])>> ELSE <<E(q[1], q[2]), Bm(q[1], q[2])>>
      w == RMul(RInt(n), RingOf(e.grid, e.pts[1][1]).w)
  IN  Near("field_alms_sample", e.vals, Eager([j \in 1 .. Len(e.lms) |-> V(e.lms[j])]), RMul(RMul(Rel(e), w), RInt(e.lmax + 1)))
      \o Near("mask_alms_sample", e.mvals, Eager([j \in 1 .. Len(e.mlms) |-> M(e.mlms[j][1], e.mlms[j][2])]), RMul(RMul(Rel(e), w), RInt(e.lmask + 1)))
JudgeSpectra(e) ==
  LET x == RAlm(e.a1)
      y == RAlm(e.a2)
  IN  Near("coupled_cell", e.pcl, Spectra(x, y, e.lmax), RMul(RStr("1e-12"), RMaxAbs(Spectra(x, x, e.lmax) \o Spectra(y, y, e.lmax))))
Bools(q) == <<q[1] = 1, q[2] = 1>>
(* a field built from band-limited mask and signal: multipoles by the product formula, maps by synthesis *)
JudgeProduct(e) ==
  LET a == ProductAlm(RAlm(e.wa)[1], e.lw, e.s, Bools(e.q), RAlm(e.sig), e.ls, e.lmax)
  IN  NearRel("field_alms", e.alm, a, Rel(e)) \o
      (IF e.maps = 0 THEN <<>> ELSE NearRel("field_maps", e.map, Alm2Map(Basis(Grid(e.grid), e.s, e.lmax), a), Rel(e)))
SStep(cs, s, e) ==
  CASE e.op = "A2M" -> Judge(s, JudgeA2M(e))
    [] e.op = "M2A" -> Judge(s, JudgeM2A(e))
    [] e.op = "Pt"  -> Judge(s, JudgePt(e))
    [] e.op = "Qpt" -> Judge(s, JudgeQpt(e))
    [] e.op = "Pts" -> Judge(s, JudgePts(e))
    [] e.op = "Spectra" -> Judge(s, JudgeSpectra(e))
    [] e.op = "Product" -> Judge(s, JudgeProduct(e))
    [] e.op = "Refused" -> Judge(s, Holds("refused", e.err # "", e.call))
    [] e.op = "Info" -> Judge(s, Same("npix", e.npix, NPix(Grid(e.grid))) \o Same("lmax_default", e.dlmax, IF e.grid.kind = "hpx" THEN 3 * e.grid.nside - 1 ELSE Max2(e.grid.N, e.grid.M \div 2)) \o
                                 Same("nelem", e.nelem, ((e.lmax + 1) * (e.lmax + 2)) \div 2) \o Same("mstart", e.mstart, [m1 \in 1 .. e.lmax + 1 |-> AlmIdx(e.lmax, m1 - 1, m1 - 1) - m1]))
=================================================================================
