--------------------------------- MODULE Catalog ---------------------------------
(***************************************************************************)
(* Fields sampled at the positions of sources, and the density of sources  *)
(* relative to that of random points.                                      *)
(***************************************************************************)
EXTENDS Sphere

(* colatitude and longitude; pairs of degrees <<longitude, latitude>> or radians <<colatitude, longitude>> *)
Theta(ll, pos) == IF ll = 1 THEN Eager([k \in 1 .. Len(pos[2]) |-> RMul(RPi, RDiv(RSub(RInt(90), pos[2][k]), RInt(180)))]) ELSE pos[1]
Phi(ll, pos)   == IF ll = 1 THEN Eager([k \in 1 .. Len(pos[1]) |-> RMul(RPi, RDiv(pos[1][k], RInt(180)))]) ELSE pos[2]
Sources(ll, pos) == Points(Theta(ll, pos), Phi(ll, pos))
SumSq(v) == RSum(Eager([k \in 1 .. Len(v) |-> RMul(v[k], v[k])]))
Weighted(w, f) == Eager([c1 \in 1 .. Len(f) |-> Eager([k \in 1 .. Len(w) |-> RMul(w[k], f[c1][k])])])

(* sum over sources of value times conjugate harmonic *)
SumAlm(G, s, lmax, v) == RndA(Quadrature(Basis(G, s, lmax), v))
MaskNoise(w)  == RDiv(SumSq(w), FourPi)
FieldNoise(v) == RDiv(RSum(Eager([c1 \in 1 .. Len(v) |-> SumSq(v[c1])])), RMul(FourPi, RInt(Len(v))))
(* spectra of two catalogs; noise leaves the diagonal of a field's spectra with itself *)
LessNoise(cl, n, nf) == Eager([p \in 1 .. Len(cl) |-> IF (p - 1) \div n # (p - 1) % n THEN cl[p] ELSE Eager([l1 \in 1 .. Len(cl[p]) |-> RSub(cl[p][l1], nf)])])

(* clustering: data of weights w in G, randoms of weights x in H *)
Alpha(w, x) == RDiv(RSum(w), RSum(x))
RandomAlm(H, lmax, w, x) == LET a == Alpha(w, x) IN SumAlm(H, 0, lmax, <<Eager([k \in 1 .. Len(x) |-> RMul(a, x[k])])>>)
DensityAlm(G, H, lmax, w, x) ==
  LET d == SumAlm(G, 0, lmax, <<w>>)[1]
      r == RandomAlm(H, lmax, w, x)[1]
      S(h) == Eager([j \in 1 .. Len(d[h]) |-> RSub(d[h][j], r[h][j])])
  IN  <<<<S(1), S(2)>>>>
RandomNoise(w, x)  == LET a == Alpha(w, x) IN RDiv(RMul(RMul(a, a), SumSq(x)), FourPi)
DensityNoise(w, x) == RAdd(MaskNoise(w), RandomNoise(w, x))
==================================================================================
