-------------------------------- MODULE CovarFlat --------------------------------
(***************************************************************************)
(* Gaussian covariances of flat-sky bandpowers in the narrow-kernel limit: *)
(* the terms of module Covar with kernels between bands, averages over     *)
(* pairs of modes of the cross-power of the two products of masks at their *)
(* separation, times the rotations between the two modes.                  *)
(***************************************************************************)
EXTENDS Flat, Covar

MulW(u, v) == Eager([x \in 1 .. Len(u) |-> RMul(u[x], v[x])])
(* P: cross-power of the two products (MaskPower); bm: modes by band *)
KernelsFlat(G, P, bm) ==
  LET t == Turns(G, 2)
      n == Len(bm)
      Rot(j, z) == CMul(t[j], CConj(t[z]))
      Avg(f(_, _)) == Eager([a \in 1 .. n |-> Eager([b \in 1 .. n |->
                        IF Len(bm[a]) = 0 \/ Len(bm[b]) = 0 THEN RInt(0)
                        ELSE RRound(RDiv(RSum(Eager([x \in 1 .. Len(bm[a]) |-> RRound(RSum(Eager([y \in 1 .. Len(bm[b]) |-> f(bm[a][x], bm[b][y])])))])),
                                         RInt(Len(bm[a]) * Len(bm[b]))))])])
      s0(j, z) == P[Sep(G, j, z)]
      x0(j, z) == RMul(P[Sep(G, j, z)], Rot(j, z)[1])
      p0(j, z) == LET r == Rot(j, z)[1] IN RMul(P[Sep(G, j, z)], RMul(r, r))
      m0(j, z) == LET r == Rot(j, z)[2] IN RMul(P[Sep(G, j, z)], RMul(r, r))
  IN  [s |-> Avg(s0), x |-> Avg(x0), p |-> Avg(p0), m |-> Avg(m0)]
(* the two pairings of four masks *)
PairingsFlat(G, w, bm) == <<KernelsFlat(G, MaskPower(G, MulW(w[1], w[3]), MulW(w[2], w[4])), bm),
                            KernelsFlat(G, MaskPower(G, MulW(w[1], w[4]), MulW(w[2], w[3])), bm)>>
(* guess spectra sampled at xs, by band *)
BinGuess(b, xs, C) == Eager([p \in 1 .. Len(C) |-> BinFlat(b, xs, C[p])])
=================================================================================
