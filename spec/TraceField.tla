------------------------------- MODULE TraceField -------------------------------
(* Recorded fields against module Field. *)
EXTENDS Conf, Field

Grid(g) == IF g.kind = "hpx" THEN Hpx(g.nside) ELSE Car(g.N, g.j0, g.n, g.M, g.m, RStr(g.q))
FullGrid(g) == IF g.kind = "hpx" THEN Hpx(g.nside) ELSE Car(g.N, g.j0, g.n, g.M, g.M, RStr(g.q))
Pad1(g, v) == IF g.kind = "hpx" \/ g.m = g.M THEN v
              ELSE Eager([x \in 1 .. g.n * g.M |-> LET col == (x - 1) % g.M
                                                       row == (x - 1) \div g.M
                                                   IN  IF col < g.m THEN v[row * g.m + col + 1] ELSE RInt(0)])
Pad(g, maps) == Eager([c1 \in 1 .. Len(maps) |-> Pad1(g, maps[c1])])
RArr(x) == Eager([c1 \in 1 .. Len(x) |-> Eager(RVec(x[c1]))])
RAlm(x) == Eager([c1 \in 1 .. Len(x) |-> <<Eager(RVec(x[c1][1])), Eager(RVec(x[c1][2]))>>])
M2A(g, s, lmax, maps, n) == Map2Alm(Basis(FullGrid(g), s, lmax), Pad(g, maps), n)
Rel(e)  == RStr(e.tol)
Obs(name, e, key, exp) == NearRel(name, e[key], exp, Rel(e))
Has(e, key) == key \in DOMAIN e

(* e: grid, spin s, lmax, lmask, niter, nimask, moi, aniso, m (11, or 11 22 12), maps, temps, base (indices of independent templates), observed: ... *)
Spec0(e) ==
  LET g  == e.grid
      ar == Areas(Grid(g))
      m  == RArr(e.m)
      w  == IF e.aniso = 1 THEN MeanMask(m[1], m[2]) ELSE m[1]
      in == RArr(e.maps)
      Wt(x) == IF e.moi = 1 THEN x ELSE IF e.aniso = 1 THEN WeightMatrix(m[1], m[2], m[3], x) ELSE MaskMap(x, w)
      ts == Eager([q \in 1 .. Len(e.temps) |-> Wt(RArr(e.temps[q]))])
      mp == Deproject(ar, Wt(in), Eager([q \in 1 .. Len(e.base) |-> ts[e.base[q]]]))
  IN  [ar |-> ar, w |-> w, a |-> IF e.aniso = 1 THEN AnisoMask(m[1], m[2], m[3]) ELSE <<>>, wm |-> Wt(in), ts |-> ts, maps |-> RndM(mp)]
JudgeField(e) ==
  LET F == Spec0(e)
      g == e.grid
      sc == RMaxAbs(F.wm)
  IN  Obs("mask", e, "mask", F.w)
      \o (IF Has(e, "spin") THEN Same("spin", e.spin, e.s) ELSE <<>>)
      \o (IF Has(e, "amask") THEN Obs("anisotropic_mask", e, "amask", F.a) ELSE <<>>)
      \o (IF Has(e, "malm") THEN Obs("mask_alms", e, "malm", M2A(g, 0, e.lmask, <<F.w>>, e.nimask)) ELSE <<>>)
      \o (IF Has(e, "aalm") THEN Obs("anisotropic_mask_alms", e, "aalm", M2A(g, 2 * e.s, e.lmask, F.a, e.nimask)) ELSE <<>>)
      \o (IF Has(e, "map") THEN Near("maps", e.map, F.maps, RMul(Rel(e), sc)) ELSE <<>>)
      \o (IF Has(e, "temp") THEN Near("templates", e.temp, F.ts, RMul(RStr("1e-13"), RMaxAbs(F.ts))) ELSE <<>>)
      \o (IF Has(e, "alm") THEN LET a == M2A(g, e.s, e.lmax, F.maps, e.niter) IN Near("alms", e.alm, a, RMul(Rel(e), RAdd(RMaxAbs(a), sc))) ELSE <<>>)
      \o (IF Has(e, "alphas") THEN Near("alphas_reproduce_maps", e.map, Combine(F.wm, Eager(RVec(e.alphas)), F.ts), RMul(Rel(e), sc)) ELSE <<>>)
      \o (IF Has(e, "iM") THEN
            LET iM == RArr(e.iM)
                M  == Gram(F.ar, F.ts)
                P  == RMatMul(M, iM)
            IN  Near("iM_generalised_inverse", e.iM, RMatMul(RMatMul(iM, M), iM), RMul(RStr("1e-6"), RMaxAbs(iM)))
                \o Holds("iM_inverts", RWithin(RMatMul(P, M), M, RMul(RStr("1e-8"), RMaxAbs(M))), "M iM M # M")
                \o Near("iM_symmetric", e.iM, RTranspose(iM), RMul(RStr("1e-6"), RMaxAbs(iM)))
          ELSE <<>>)
(* all spectra of two fields; both multipoles as recorded; for catalogs less their noise *)
JudgeSpectra(e) ==
  LET x == RAlm(e.a1)
      y == RAlm(e.a2)
      S == Spectra(x, y, e.lmax)
  IN  Near("coupled_cell", e.pcl, S, RMul(RStr("1e-12"), RMaxAbs(Spectra(x, x, e.lmax) \o Spectra(y, y, e.lmax))))
(* band-limited mask, signal and templates: the purified field is that of the signal less its best fit *)
JudgePureTemp(e) ==
  LET B   == Basis(Grid(e.grid), 2, e.ls)
      ar  == Areas(Grid(e.grid))
      wa  == RAlm(e.wa)
      w   == RndM(Alm2Map(Basis(Grid(e.grid), 0, e.lw), wa))[1]
      sg  == RAlm(e.sig)
      ta  == Eager([q \in 1 .. Len(e.ts) |-> RAlm(e.ts[q])])
      wm  == RndM(MaskMap(Alm2Map(B, sg), w))
      ts  == Eager([q \in 1 .. Len(e.ts) |-> RndM(MaskMap(Alm2Map(B, ta[q]), w))])
      al  == Eager(BestFit(ar, wm, ts))
      C1a(x, k) == Eager([j \in 1 .. Len(sg[x][k]) |-> RSub(sg[x][k][j], RSum(Eager([q \in 1 .. Len(ta) |-> RMul(al[q], ta[q][x][k][j])])))])
      cl  == RndA(<<<<C1a(1, 1), C1a(1, 2)>>, <<C1a(2, 1), C1a(2, 2)>>>>)
      a   == ProductAlm(wa[1], e.lw, 2, <<e.q[1] = 1, e.q[2] = 1>>, cl, e.ls, e.lmax)
  IN  NearRel("alphas", e.alphas, al, Rel(e)) \o NearRel("purified_alms", e.alm, a, Rel(e))
      \o (IF Has(e, "temp") THEN NearRel("templates", e.temp, ts, RStr("1e-12")) ELSE <<>>)
(* any field, purified or not, on any grid: multipoles, biases of deprojection; x: description of a field *)
FieldOf(g, x) ==
  LET F == Describe(FullGrid(g), x.s, x.q, Pad(g, RArr(x.m))[1], x.lmax, x.lmask, x.niter, x.nimask)
  IN  WithTemplates(F, Eager([p \in 1 .. Len(x.base) |-> Pad(g, RArr(x.temps[x.base[p]]))]))
Iter(D, n) == [D EXCEPT !.F.n = n]                        \* transforms of the bias may use other numbers of iterations
JudgeAlm(e) ==
  LET D == FieldOf(e.grid, e.f)
      x == Pad(e.grid, RArr(e.maps))
      a == Cleaned(D, x)
  IN  NearRel("alms", e.alm, a, Rel(e))
      \o (IF Has(e, "map") THEN NearRel("maps", e.map, RndM(Alm2Map(Basis(Grid(e.grid), e.f.s, e.f.lmax), a)), Rel(e)) ELSE <<>>)
NearBias(e, key, exp, sc) == Near(key, e[key], exp, RMul(Rel(e), RAdd(RMaxAbs(exp), RMul(RStr("1e-3"), sc))))
JudgeBias(e) ==
  LET D1 == FieldOf(e.grid, e.f)
      D2 == IF e.same = 1 THEN D1 ELSE FieldOf(e.grid, e.g)
      C  == RArr(e.C)
      b  == IF e.ensemble = 1 THEN SignalBias(D1, D2, C) ELSE SignalBiasFormula(Iter(D1, e.nb), Iter(D2, e.nb), C)
  IN  NearBias(e, "bias", b, RMaxAbs(C))
JudgeNoise(e) ==
  LET D == FieldOf(e.grid, e.f)
      v == Pad1(e.grid, Eager(RVec(e.v)))
      b == IF e.ensemble = 1 THEN NoiseBias(D, v) ELSE NoiseBiasFormula(Iter(D, e.nb), v)
  IN  NearBias(e, "bias", b, RMaxAbs(v))
FStart(cs) == 0
FStep(cs, s, e) ==
  CASE e.op = "Field"   -> Judge(s, JudgeField(e))
    [] e.op = "Spectra" -> Judge(s, JudgeSpectra(e))
    [] e.op = "PureTemp" -> Judge(s, JudgePureTemp(e))
    [] e.op = "Alm"   -> Judge(s, JudgeAlm(e))
    [] e.op = "Bias"  -> Judge(s, JudgeBias(e))
    [] e.op = "NoiseBias" -> Judge(s, JudgeNoise(e))
    [] e.op = "Refused" -> Judge(s, Holds("refused", e.err # "", e.call))
    [] e.op = "Flag"    -> Judge(s, Same(e.name, e.obs, e.exp))
==================================================================================
