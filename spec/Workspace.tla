-------------------------------- MODULE Workspace --------------------------------
(***************************************************************************)
(* A workspace: what it holds, what its public operations return, which    *)
(* requests it accepts, and what each request does to it.                  *)
(*                                                                         *)
(* The contents r = [n, lmax, M, beam, bins, norm, w2]:                    *)
(*   n     number of spectra         M     coupling matrix, index n*l + a  *)
(*   beam  beam product by multipole bins  binning scheme (module Bins)    *)
(*   norm  "MASTER" or "FKP"         w2    mean mask product (FKP)         *)
(***************************************************************************)
EXTENDS Bins

(* Linear maps as matrices. *)
Binning(s, n, lmax)   == Eager([r \in 1 .. n * NB(s) |-> Eager([q \in 1 .. n * (lmax + 1) |->
   LET b == ((r - 1) \div n) + 1
       l == ((q - 1) \div n)
   IN  IF ((r - 1) % n) # ((q - 1) % n) THEN Zero
       ELSE RSum(Eager([k \in 1 .. Len(s.bands[b]) |-> IF s.bands[b][k].l = l THEN RMul(s.bands[b][k].w, s.bands[b][k].f) ELSE Zero]))])])
Unbinning(s, n, lmax) == Eager([r \in 1 .. n * (lmax + 1) |-> Eager([q \in 1 .. n * NB(s) |->
   LET b == ((q - 1) \div n) + 1
       l == ((r - 1) \div n)
   IN  IF ((r - 1) % n) # ((q - 1) % n) THEN Zero
       ELSE RSum(Eager([k \in 1 .. Len(s.bands[b]) |-> IF s.bands[b][k].l = l THEN RDiv(One, s.bands[b][k].f) ELSE Zero]))])])
Beamed(r, M)          == Eager([i \in 1 .. Len(M) |-> Eager([j \in 1 .. Len(M) |-> RMul(M[i][j], r.beam[((j - 1) \div r.n) + 1])])])

(* Spectra cl[a][l+1] as one vector, and back (longer spectra are cut). *)
Flatten(n, m, cl)     == Eager([j \in 1 .. n * m |-> cl[((j - 1) % n) + 1][((j - 1) \div n) + 1]])
Unflatten(n, v)       == Eager([a \in 1 .. n |-> Eager([b \in 1 .. (Len(v) \div n) |-> v[n * (b - 1) + a]])])

(* Multiplication of spectra by the coupling matrix, beams included. *)
CoupleV(r, cl)        == RMatVec(Beamed(r, r.M), Flatten(r.n, r.lmax + 1, cl))
Couple(r, cl)         == Unflatten(r.n, CoupleV(r, cl))
(* The system that decoupling solves, B x = rhs. *)
Diagonal(k, x)        == Eager([i \in 1 .. k |-> Eager([j \in 1 .. k |-> IF i = j THEN x ELSE Zero])])
BinnedOf(r, M)        == RMatMul(RMatMul(Binning(r.bins, r.n, r.lmax), Beamed(r, M)), Unbinning(r.bins, r.n, r.lmax))
Binned(r)             == IF r.norm = "FKP" THEN Diagonal(r.n * NB(r.bins), r.w2) ELSE BinnedOf(r, r.M)
Rhs(r, cl)            == RMatVec(Binning(r.bins, r.n, r.lmax), Flatten(r.n, r.lmax + 1, cl))
Decouple(r, cl)       == RMatVec(RInv(Binned(r)), Rhs(r, cl))
(* Bandpower windows W satisfy B W = WindowRhs. *)
WindowRhs(r)          == RMatMul(Binning(r.bins, r.n, r.lmax), Beamed(r, r.M))
Windows(r)            == RMatMul(RInv(Binned(r)), WindowRhs(r))
(* A band in which nothing is measured: its row of B is zero, and no operation that needs the inverse can succeed. *)
DeadBand(B)           == \E i \in 1 .. Len(B) : \A j \in 1 .. Len(B) : B[i][j] = Zero

(* The life of a workspace. None: nothing computed or read yet. unb: the coupling matrix itself is held. *)
None                  == [ok |-> FALSE, unb |-> FALSE]
Build(n, lmax, M, beam, bins, norm, w2) ==
  [ok |-> TRUE, unb |-> TRUE, n |-> n, lmax |-> lmax, M |-> M, beam |-> beam, bins |-> bins, norm |-> norm, w2 |-> w2]
CanUpdate(w)             == w.ok /\ w.unb
CanSetBeams(w, l1, l2)   == CanUpdate(w) /\ l1 > w.lmax /\ l2 > w.lmax            \* lengths of the two beams
CanSetBins(w, s)         == CanUpdate(w) /\ s.lmax = w.lmax
CanSetMatrix(w, rows)    == CanUpdate(w) /\ rows = w.n * (w.lmax + 1)
CanWrite(w)              == CanUpdate(w)
SetBeams(w, b)           == [w EXCEPT !.beam = b]
SetBins(w, s)            == [w EXCEPT !.bins = s]
SetMatrix(w, M)          == [w EXCEPT !.M = M]
(* A file holds all of a workspace; reading can leave the matrix out. *)
Loaded(f, unb)           == [f EXCEPT !.unb = unb]
==================================================================================
