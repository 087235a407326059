-------------------------------- MODULE ApodMaps --------------------------------
(* Smooth apodisation on the sphere: Gaussian smoothing of the multipoles. *)
EXTENDS Apod, Sphere

VecOf(r, k) == LET sn == RMul(RInt(2), RMul(r.ch, r.sh)) IN <<RRound(RMul(sn, r.e[k][1])), RRound(RMul(sn, r.e[k][2])), RRound(RSub(RMul(r.ch, r.ch), RMul(r.sh, r.sh)))>>
Vecs(G) == LET RECURSIVE S(_)
               S(j) == IF j = 0 THEN <<>> ELSE S(j - 1) \o [k \in 1 .. Len(G[j].e) |-> VecOf(G[j], k)] IN Eager(S(Len(G)))
(* B: basis of spin 0; map smoothed by a Gaussian of width sigma *)
MajorLs(lmax) == LET RECURSIVE S(_)
                     S(m) == IF m > lmax THEN <<>> ELSE [j \in 1 .. lmax - m + 1 |-> m + j - 1] \o S(m + 1) IN Eager(S(0))
Smoothed(B, map, sigma, niter) ==
  LET al == Map2Alm(B, <<map>>, niter)[1]
      bm == Eager([l1 \in 1 .. B.lmax + 1 |-> RExp(RMul(RFrac(-(l1 - 1) * l1, 2), RMul(sigma, sigma)))])
      ls == MajorLs(B.lmax)
      F(v) == Eager([j \in 1 .. Len(v) |-> RRound(RMul(bm[ls[j] + 1], v[j]))])
  IN  Alm2Map(B, <<<<F(al[1]), F(al[2])>>>>)[1]
=================================================================================
