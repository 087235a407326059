------------------------------ MODULE ApodFlatMaps ------------------------------
(* Smooth apodisation of a flat patch: Gaussian smoothing of its modes. *)
EXTENDS Apod, Flat

SmoothedF(G, map, sigma) ==
  LET a == Dft(G, map)
      f == Eager([j \in 1 .. G.n |-> RExp(RMul(RFrac(-1, 2), RMul(RMul(G.k[j], G.k[j]), RMul(sigma, sigma))))])
  IN  IDft(G, Eager([j \in 1 .. G.n |-> CScl(f[j], a[j])]))
PixX(G) == RDiv(G.lx, RInt(G.nx))
PixY(G) == RDiv(G.ly, RInt(G.ny))
ApodF(G, m, scale, type) ==
  IF type = "Smooth" THEN RMulV(m, SmoothedF(G, CutFlat(G.nx, PixX(G), PixY(G), m, scale), scale))
  ELSE ApodFlat(G.nx, PixX(G), PixY(G), m, scale, type)
=================================================================================
