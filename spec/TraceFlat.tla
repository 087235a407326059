-------------------------------- MODULE TraceFlat --------------------------------
(* Recorded flat-sky fields and spectra against module Flat. *)
EXTENDS Conf, Flat

G0(e)    == Patch(e.nx, e.ny, RStr(e.lx), RStr(e.ly))
RArr(x)  == Eager([c1 \in 1 .. Len(x) |-> Eager(RVec(x[c1]))])
Bands(b) == [l0 |-> Eager(RVec(b.l0)), lf |-> Eager(RVec(b.lf))]
Cut(x)   == <<<<RStr(x[1][1]), RStr(x[1][2])>>, <<RStr(x[2][1]), RStr(x[2][2])>>>>
Has(e, key) == key \in DOMAIN e
NoCut    == <<<<RInt(1), RInt(-1)>>, <<RInt(1), RInt(-1)>>>>

(* f: s, q, m, maps, temps, base (independent templates), moi.  Masked maps and templates, coefficients, modes. *)
Unmask(x, w, moi) == IF moi = 0 THEN x
  ELSE Eager([c1 \in 1 .. Len(x) |-> Eager([p \in 1 .. Len(w) |-> IF RLt(RInt(0), w[p]) THEN RDiv(x[c1][p], w[p]) ELSE RInt(0)])])
FieldOf(G, f) ==
  LET w  == Eager(RVec(f.m))
      in == RArr(f.maps)
      Wt(x) == IF f.moi = 1 THEN x ELSE MulMap(x, w)
      ts == Eager([p \in 1 .. Len(f.temps) |-> Wt(RArr(f.temps[p]))])
      tb == Eager([p \in 1 .. Len(f.base) |-> ts[f.base[p]]])
      wm == Wt(in)
      al == BestFitF(G, wm, tb)
      pure == f.q[1] = 1 \/ f.q[2] = 1
      mp == CombineF(wm, al, tb)
      raw == IF pure THEN CombineF(Unmask(in, w, f.moi), al, Eager([p \in 1 .. Len(f.base) |-> Unmask(RArr(f.temps[f.base[p]]), w, f.moi)])) ELSE <<>>
      a  == IF pure THEN PureModes(G, f.q, w, raw) ELSE Fwd(G, f.s, mp)
  IN  [w |-> w, ts |-> ts, wm |-> wm, a |-> a, maps |-> IF pure THEN Inv(G, 2, a) ELSE mp]
BiasDesc(G, f) ==
  LET F  == FieldOf(G, f)
      tb == Eager([p \in 1 .. Len(f.base) |-> F.ts[f.base[p]]])
      pure == f.q # <<0, 0>>
      raw(p) == Unmask(RArr(f.temps[f.base[p]]), F.w, f.moi)
  IN  [s |-> f.s, q |-> f.q, w |-> F.w, f |-> tb, iM |-> IF Len(tb) = 0 THEN <<>> ELSE RInv(GramF(G, tb)),
       af |-> Eager([p \in 1 .. Len(tb) |-> IF pure THEN PureModes(G, f.q, F.w, raw(p)) ELSE Fwd(G, f.s, tb[p])]), a |-> F.a]
(* without its mean (a purified map's mean is not specified) *)
NoMean(x) == Eager([c1 \in 1 .. Len(x) |-> LET m == RDiv(RSum(x[c1]), RInt(Len(x[c1]))) IN Eager([p \in 1 .. Len(x[c1]) |-> RSub(x[c1][p], m)])])
JudgeField(e) ==
  LET G == G0(e)
      F == FieldOf(G, e.f)
      tol == RMul(RStr(e.tol), RMaxAbs(F.wm))
      pure == e.f.q # <<0, 0>>
  IN  Near("mask", e.mask, F.w, RInt(0))
      \o (IF ~ Has(e, "map") THEN <<>>
          ELSE IF pure THEN (IF \A k \in 1 .. Len(e.map) : RVecOk(e.map[k])
                             THEN Holds("purified_maps", RWithin(NoMean(RArr(e.map)), NoMean(F.maps), RAdd(tol, RMul(RStr(e.tol), RMaxAbs(F.maps)))),
                                        RDiff(e.map, F.maps))
                             ELSE Fail("purified_maps", "not finite"))
          ELSE Near("maps", e.map, F.maps, tol))
      \o (IF Has(e, "temp") THEN Near("templates", e.temp, F.ts, RMul(RStr("1e-12"), RMaxAbs(F.ts))) ELSE <<>>)
      \o (IF Has(e, "ells") THEN NearRel("ell_sampling", e.ells, RingCentres(G), RStr("1e-12")) ELSE <<>>)
JudgeCells(e) ==
  LET G  == G0(e)
      x  == FieldOf(G, e.f1).a
      y  == IF e.same = 1 THEN x ELSE FieldOf(G, e.f2).a
      bm == BandModes(G, Bands(e.b), IF e.cut = <<>> THEN NoCut ELSE Cut(e.cut))
      S  == SpectraF(G, x, y, bm)
      sc == RMaxAbs(SpectraF(G, x, x, bm) \o SpectraF(G, y, y, bm))
  IN  Near("coupled_cell", e.cl, S, RMul(RStr(e.tol), sc))

(* mode coupling: f1, f2 = [s, q, m (mask), beam]; beam: samples or << >> *)
Square(M) == Len(M) = Len(M[1])
BeamAt(G, b) == IF b = <<>> THEN Eager([j \in 1 .. G.n |-> RInt(1)]) ELSE LET v == RArr(b) IN AtModes(G, v[1], v[2])
Guess(G, g) == LET xs == Eager(RVec(g.ells)) IN Eager([p \in 1 .. Len(g.cl) |-> AtModes(G, xs, Eager(RVec(g.cl[p])))])
NearBias(name, obs, exp, tol, sc) ==
  IF ~ \A p \in 1 .. Len(obs) : RVecOk(obs[p]) THEN Fail(name, "not finite") ELSE Near(name, obs, exp, RMul(tol, RAdd(RMaxAbs(exp), RMul(RStr("1e-3"), sc))))
JudgeBias(e) ==
  LET G  == G0(e)
      D1 == BiasDesc(G, e.f1)
      D2 == IF e.same = 1 THEN D1 ELSE BiasDesc(G, e.f2)
      bm == BandModes(G, Bands(e.b), IF e.cut = <<>> THEN NoCut ELSE Cut(e.cut))
      C  == Guess(G, e.guess)
  IN  NearBias("deprojection_bias_flat", e.bias, IF e.ensemble = 1 THEN EnsembleF(G, D1, D2, C, bm) ELSE BiasF(G, D1, D2, C, bm), RStr(e.tol), RMaxAbs(C))
(* decoupled bandpowers of the two fields: what coupling them (wcut, wf: as the workspace was computed) must give back *)
JudgeFull(e) ==
  LET G  == G0(e)
      D1 == BiasDesc(G, e.f1)
      D2 == IF e.same = 1 THEN D1 ELSE BiasDesc(G, e.f2)
      B  == Bands(e.b)
      bm == BandModes(G, B, IF e.cut = <<>> THEN NoCut ELSE Cut(e.cut))
      n  == NM(D1.s) * NM(D2.s)
      nb == Len(bm)
      S  == SpectraF(G, D1.a, D2.a, bm)
      bi == IF e.guess = <<>> THEN ZeroF(n, nb) ELSE BiasF(G, D1, D2, Guess(G, e.guess[1]), bm)
      no == IF e.noise = <<>> THEN ZeroF(n, nb) ELSE RArr(e.noise)
      V(x) == Eager([k \in 1 .. n * nb |-> x[((k - 1) % n) + 1][((k - 1) \div n) + 1]])
      rhs == V(AddF(S, SclF(RInt(-1), AddF(bi, no))))
      W1 == Eager(RVec(e.w1.m))
      W2 == IF e.wsame = 1 THEN W1 ELSE Eager(RVec(e.w2.m))
      u2 == IF e.wsame = 1 THEN e.w1 ELSE e.w2
      F  == [s1 |-> e.w1.s, q1 |-> e.w1.q, s2 |-> u2.s, q2 |-> u2.q, P |-> MaskPower(G, W1, W2), bm |-> RMulV(BeamAt(G, e.w1.beam), BeamAt(G, u2.beam))]
      WB == Bands(e.wb)
      MB == MatF(G, F, BandModes(G, WB, IF e.wcut = <<>> THEN NoCut ELSE Cut(e.wcut)), AllModes(G, WB))
  IN  IF ~ \A p \in 1 .. Len(e.out) : RVecOk(e.out[p]) THEN Fail("compute_full_master_flat", "not finite")
      ELSE LET o == V(RArr(e.out))
               lhs == RMatVec(MB, o)
               sc == RAdd(RMaxAbs(S), RAdd(RMaxAbs(bi), RMaxAbs(no)))
           IN  Holds("compute_full_master_flat", RWithin(lhs, rhs, RMul(RStr(e.tol), RAdd(RMul(RMaxAbs(MB), RSum(RAbsM(o))), sc))),
                     "coupling the result again: " \o RDiff([z \in 1 .. Len(lhs) |-> RShow(lhs[z])], rhs))
JudgeMcm(e) ==
  LET G  == G0(e)
      B  == Bands(e.b)
      w1 == Eager(RVec(e.f1.m))
      w2 == IF e.same = 1 THEN w1 ELSE Eager(RVec(e.f2.m))
      f2 == IF e.same = 1 THEN e.f1 ELSE e.f2
      F  == [s1 |-> e.f1.s, q1 |-> e.f1.q, s2 |-> f2.s, q2 |-> f2.q, P |-> MaskPower(G, w1, w2),
             bm |-> RMulV(BeamAt(G, e.f1.beam), BeamAt(G, f2.beam))]
      n  == IF e.teb = 1 THEN 7 ELSE NM(F.s1) * NM(F.s2)
      rows == BandModes(G, B, IF e.cut = <<>> THEN NoCut ELSE Cut(e.cut))
      rings == RingsOf(G)
      T(cols) == IF e.teb = 1 THEN MatTEBF(G, F, rows, cols) ELSE MatF(G, F, rows, cols)
      MU == T(rings)
      MB == T(AllModes(G, B))
      tol == RStr(e.tol)
      mx == RMaxAbs(MU)
      (* spectra averaged over rings, as one vector *)
      Rng(x) == LET xs == Eager(RVec(x.ells))
                    at == Eager([a \in 1 .. n |-> LET v == AtModes(G, xs, Eager(RVec(x.cl[a]))) IN Eager([k \in 1 .. Len(rings) |-> RRound(MeanOver(v, rings[k]))])])
                IN  Eager([k \in 1 .. n * Len(rings) |-> at[((k - 1) % n) + 1][((k - 1) \div n) + 1]])
      Flat1(x) == LET r == RArr(x) IN Eager([k \in 1 .. n * Len(rows) |-> r[((k - 1) % n) + 1][((k - 1) \div n) + 1]])
      Less(x, ys) == IF ys = <<>> THEN x ELSE LET y == Flat1(ys) IN Eager([k \in 1 .. Len(x) |-> RSub(x[k], y[k])])
      RECURSIVE C1s(_)
      C1s(k) == IF k = 0 THEN <<>> ELSE
        LET x == e.couple[k]
            r == Rng(x)
        IN  C1s(k - 1) \o (IF ~ \A a \in 1 .. Len(x.out) : RVecOk(x.out[a]) THEN Fail("couple_cell", "not finite")
                           ELSE LET o == Flat1(x.out)
                                    ex == RMatVec(MU, r)
                                IN  Holds("couple_cell", RWithin(o, ex, RMul(tol, RMul(mx, RSum(RAbsM(r))))), "case " \o ToString(k) \o ": " \o RDiff([z \in 1 .. Len(o) |-> RShow(o[z])], ex)))
      RECURSIVE S1s(_)
      S1s(k) == IF k = 0 THEN <<>> ELSE
        LET x == e.solve[k] IN
        S1s(k - 1) \o (IF ~ \A a \in 1 .. Len(x.out) : RVecOk(x.out[a]) THEN Fail("decouple_cell", "not finite")
                       ELSE LET o == Flat1(x.out)
                                rhs == Less(Less(Flat1(x.cl), x.noise), x.bias)
                                lhs == RMatVec(MB, o)
                            IN  Holds("decouple_cell", RWithin(lhs, rhs, RMul(tol, RAdd(RMul(RMaxAbs(MB), RSum(RAbsM(o))), RMaxAbs(rhs)))), "case " \o ToString(k) \o ": coupling the result again: " \o RDiff([z \in 1 .. Len(o) |-> RShow(lhs[z])], rhs)))
      small(v) == RLe(RMaxAbs(v), RMul(RStr("1e-14"), RMaxAbs(MB)))
      Empty == (\E r \in 1 .. Len(MB) : small(MB[r])) \/ (\E r \in 1 .. Len(MB) : small(Eager([k \in 1 .. Len(MB) |-> MB[k][r]])))
  IN  C1s(Len(e.couple)) \o S1s(Len(e.solve)) \o Holds("decouple_cell", e.singular = 1 => Empty, "refused to solve a regular system")

LStart(cs) == 0
LStep(cs, s, e) ==
  CASE e.op = "Field"   -> Judge(s, JudgeField(e))
    [] e.op = "Cells"   -> Judge(s, JudgeCells(e))
    [] e.op = "Bias"    -> Judge(s, JudgeBias(e))
    [] e.op = "Full"    -> Judge(s, JudgeFull(e))
    [] e.op = "Mcm"     -> Judge(s, JudgeMcm(e))
    [] e.op = "Same"    -> Judge(s, Near(e.name, e.obs, RArr(e.exp), RMul(RStr(e.tol), RMaxAbs(RArr(e.exp)))))
    [] e.op = "Flag"    -> Judge(s, Same(e.name, e.obs, e.exp))
    [] e.op = "Refused" -> Judge(s, Holds("refused", e.err # "", e.call \o " was accepted"))
==================================================================================
