-------------------------------- MODULE BinsFlat --------------------------------
(* Flat-sky bandpowers: bands [l0[b], lf[b]) in increasing order, gaps allowed.   *)
EXTENDS Rat, Integers, Sequences, FiniteSets

Contains(s, b, l) == RLe(s.l0[b], l) /\ RLt(l, s.lf[b])
(* 0 when no band contains l *)
BandOf(s, l)   == LET h == {b \in 1 .. Len(s.l0) : Contains(s, b, l)} IN IF h = {} THEN 0 ELSE CHOOSE b \in h : \A x \in h : b <= x
Ordered(s)     == /\ \A b \in 1 .. Len(s.l0) : RLt(s.l0[b], s.lf[b])
                  /\ \A b \in 1 .. Len(s.l0) - 1 : RLe(s.lf[b], s.l0[b + 1])
Centre(s, b)   == RDiv(RAdd(s.l0[b], s.lf[b]), RInt(2))
Centres(s)     == Eager([b \in 1 .. Len(s.l0) |-> Centre(s, b)])
OutOfBand      == RInt(-999)
Unbin(s, bp, ls) == Eager([k \in 1 .. Len(ls) |-> LET b == BandOf(s, ls[k]) IN IF b = 0 THEN OutOfBand ELSE bp[b]])

(* Linear interpolation through the samples (xs increasing), end values outside. *)
Interp(xs, ys, x) ==
  LET n == Len(xs) IN
  IF RLe(x, xs[1]) THEN ys[1] ELSE IF RLe(xs[n], x) THEN ys[n]
  ELSE LET RECURSIVE Find(_, _)            \* greatest k with xs[k] <= x
           Find(lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF RLe(xs[m], x) THEN Find(m, hi) ELSE Find(lo, m)
           k == Find(1, n)
           t == RDiv(RSub(x, xs[k]), RSub(xs[k + 1], xs[k]))
       IN  RAdd(ys[k], RMul(t, RSub(ys[k + 1], ys[k])))
BinFlat(s, xs, ys) == Eager([b \in 1 .. Len(s.l0) |-> Interp(xs, ys, Centre(s, b))])
================================================================================
