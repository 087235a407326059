------------------------------ MODULE TraceCatalog ------------------------------
(* Recorded catalog fields against module Catalog. *)
EXTENDS Conf, Catalog
RArr(x) == Eager([c1 \in 1 .. Len(x) |-> Eager(RVec(x[c1]))])
RAlm(x) == Eager([c1 \in 1 .. Len(x) |-> <<Eager(RVec(x[c1][1])), Eager(RVec(x[c1][2]))>>])
Has(e, key) == key \in DOMAIN e
V(e, k) == Eager(RVec(e[k]))
(* sums over sources are asked for with relative precision 1e-5 *)
NearSum(name, obs, exp, v) == Near(name, obs, exp, RMul(RStr("2e-5"), RSqrt(RSum(Eager([c1 \in 1 .. Len(v) |-> SumSq(v[c1])])))))
NearNum(name, obs, exp) == Near(name, obs, exp, RMul(RStr("1e-13"), RAdd(RAbs(exp), RStr("1e-300"))))
(* e: ll, pos, w, s, lmax, lmask, and unless it is a mask only f, weighted; observed: malm, nw, alm, nf *)
JudgeCatalog(e) ==
  LET G == Sources(e.ll, RArr(e.pos))
      w == V(e, "w")
      v == IF e.weighted = 1 THEN RArr(e.f) ELSE Weighted(w, RArr(e.f))
  IN  NearSum("mask_alms", e.malm, SumAlm(G, 0, e.lmask, <<w>>), <<w>>) \o NearNum("Nw", e.nw, MaskNoise(w)) \o Same("spin", e.spin, e.s)
      \o (IF Has(e, "alm") THEN NearSum("alms", e.alm, SumAlm(G, e.s, e.lmax, v), v) \o NearNum("Nf", e.nf, FieldNoise(v)) ELSE <<>>)
JudgeClustering(e) ==
  LET G == Sources(e.ll, RArr(e.pos))
      H == Sources(e.ll, RArr(e.posr))
      w == V(e, "w")
      x == V(e, "x")
      all == <<w \o Eager([k \in 1 .. Len(x) |-> RMul(Alpha(w, x), x[k])])>>
  IN  NearSum("mask_alms", e.malm, RandomAlm(H, e.lmax, w, x), all) \o NearSum("alms", e.alm, DensityAlm(G, H, e.lmax, w, x), all)
      \o NearNum("Nw", e.nw, RandomNoise(w, x)) \o NearNum("Nf", e.nf, DensityNoise(w, x)) \o NearNum("alpha", e.alpha, Alpha(w, x)) \o Same("spin", e.spin, 0)
      \o Near("monopole", e.alm[1][1][1], RInt(0), RMul(RStr("2e-5"), RSqrt(SumSq(all[1]))))
Noise(e, k) == IF e.same = 1 THEN RStr(e[k]) ELSE RInt(0)
JudgeSpectra(e) ==
  LET a == RAlm(e.a1)
      b == RAlm(e.a2)
      sc == RAdd(RMaxAbs(Spectra(a, a, e.lmax) \o Spectra(b, b, e.lmax)), RAbs(Noise(e, "nf")))
  IN  Near("coupled_cell", e.pcl, LessNoise(Spectra(a, b, e.lmax), Len(b), Noise(e, "nf")), RMul(RStr("1e-12"), sc))
(* spectrum of the masks of two scalars, as seen in their coupling matrix *)
JudgeMask(e) ==
  LET a == RAlm(e.a1)
      b == RAlm(e.a2)
      S == <<SubSeq(Spectra(a, b, e.lmask)[1], 1, Len(e.pcl))>>
      sc == RAdd(RMaxAbs(Spectra(a, a, e.lmask) \o Spectra(b, b, e.lmask)), RAbs(Noise(e, "nw")))
  IN  Near("mask_spectrum", <<e.pcl>>, LessNoise(S, 1, Noise(e, "nw")), RMul(RStr("1e-11"), sc))
CStart(cs) == 0
CStep(cs, s, e) ==
  CASE e.op = "Catalog"    -> Judge(s, JudgeCatalog(e))
    [] e.op = "Clustering" -> Judge(s, JudgeClustering(e))
    [] e.op = "Spectra"    -> Judge(s, JudgeSpectra(e))
    [] e.op = "Mask"       -> Judge(s, JudgeMask(e))
    [] e.op = "Refused"    -> Judge(s, Holds("refused", e.err # "", e.call))
    [] e.op = "Flag"       -> Judge(s, Same(e.name, e.obs, e.exp))
=================================================================================
