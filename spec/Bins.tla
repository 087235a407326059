---------------------------------- MODULE Bins ----------------------------------
(***************************************************************************)
(* Curved-sky bandpower schemes.                                           *)
(* A scheme is [lmax |-> highest multipole, bands |-> sequence of bands];  *)
(* a band is the sequence of its members [l |-> multipole, w |-> weight,   *)
(* f |-> prefactor], in the order in which they were supplied.             *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets

SeqMax(s, lo) == LET RECURSIVE M(_, _)
                     M(k, m) == IF k > Len(s) THEN m ELSE M(k + 1, IF s[k] > m THEN s[k] ELSE m)
                 IN  M(1, lo)
Zero == RInt(0)
One  == RInt(1)

(* Entries of the request that count: multipole within range, band index not negative. *)
Used(q, k)     == q.ells[k] <= q.lmax /\ q.bpws[k] >= 0
NBands(q)      == 1 + SeqMax([k \in 1 .. Len(q.ells) |-> IF Used(q, k) THEN q.bpws[k] ELSE 0], 0)
Members(q, b)  == SelectSeq([k \in 1 .. Len(q.ells) |-> k], LAMBDA k : Used(q, k) /\ q.bpws[k] = b)
Positive(f)    == IF RLe(f, Zero) THEN One ELSE f          \* a prefactor that is not positive counts as one
WSum(q, m)     == RSum(Eager([k \in 1 .. Len(m) |-> q.ws[m[k]]]))

(* q = [ells, bpws, ws, fs, lmax] *)
Creatable(q)   == \A b \in 0 .. NBands(q) - 1 : RLt(Zero, WSum(q, Members(q, b)))
Create(q)      == [lmax |-> q.lmax,
                   bands |-> [b \in 1 .. NBands(q) |->
                      LET m == Members(q, b - 1)
                          n == WSum(q, m)
                      IN  [k \in 1 .. Len(m) |-> [l |-> q.ells[m[k]], w |-> RDiv(q.ws[m[k]], n), f |-> Positive(q.fs[m[k]])]]]]

Ones(n)        == [k \in 1 .. n |-> One]
Dell(l)        == RDiv(RInt(l * (l + 1)), RMul(RInt(2), RPi))
(* Constant width nlb from multipole 2; a last band with fewer than nlb multipoles is dropped. *)
LinearReq(lmax, nlb) ==
  LET full == IF lmax < 1 THEN 0 ELSE (lmax - 1) \div nlb
  IN  [lmax |-> lmax, ells |-> [k \in 1 .. lmax + 1 |-> k - 1], ws |-> Ones(lmax + 1),
       bpws |-> [k \in 1 .. lmax + 1 |-> IF k - 1 < 2 \/ k - 3 >= full * nlb THEN -1 ELSE (k - 3) \div nlb]]
(* Bands [ini, end) with equal weights. *)
EdgesReq(ini, end) ==
  LET RECURSIVE E(_)
      E(b) == IF b > Len(ini) THEN <<>> ELSE [k \in 1 .. end[b] - ini[b] |-> <<ini[b] + k - 1, b - 1>>] \o E(b + 1)
      all == E(1)
      ls  == [k \in 1 .. Len(all) |-> all[k][1]]
  IN  [lmax |-> SeqMax(ls, 0), ells |-> ls, bpws |-> [k \in 1 .. Len(all) |-> all[k][2]], ws |-> Ones(Len(all))]
WithPrefactors(q, fs) == [lmax |-> q.lmax, ells |-> q.ells, bpws |-> q.bpws, ws |-> q.ws, fs |-> fs]

(* What the object reports about itself. *)
NB(s)        == Len(s.bands)
Counts(s)    == [b \in 1 .. NB(s) |-> Len(s.bands[b])]
Ells(s)      == [b \in 1 .. NB(s) |-> [k \in 1 .. Len(s.bands[b]) |-> s.bands[b][k].l]]
Weights(s)   == [b \in 1 .. NB(s) |-> Eager([k \in 1 .. Len(s.bands[b]) |-> s.bands[b][k].w])]
LEff(s)      == [b \in 1 .. NB(s) |-> RSum(Eager([k \in 1 .. Len(s.bands[b]) |-> RMul(s.bands[b][k].w, RInt(s.bands[b][k].l))]))]
LMin(s)      == [b \in 1 .. NB(s) |-> CHOOSE l \in {s.bands[b][k].l : k \in 1 .. Len(s.bands[b])} : \A k \in 1 .. Len(s.bands[b]) : l <= s.bands[b][k].l]
LMax(s)      == [b \in 1 .. NB(s) |-> CHOOSE l \in {s.bands[b][k].l : k \in 1 .. Len(s.bands[b])} : \A k \in 1 .. Len(s.bands[b]) : l >= s.bands[b][k].l]

(* Binning: weighted average of prefactor times spectrum. cl[l+1] is the value at multipole l. *)
BinOne(s, cl)   == Eager([b \in 1 .. NB(s) |-> RSum(Eager([k \in 1 .. Len(s.bands[b]) |->
                      LET m == s.bands[b][k] IN RMul(RMul(m.w, m.f), cl[m.l + 1])]))])
(* Unbinning: bandpower over prefactor at each member, zero elsewhere (a multipole in several bands: the last one). *)
UnbinOne(s, bp) ==
  LET last(l) == LET hits == {b \in 1 .. NB(s) : \E k \in 1 .. Len(s.bands[b]) : s.bands[b][k].l = l}
                 IN  IF hits = {} THEN 0 ELSE CHOOSE b \in hits : \A x \in hits : x <= b
      val(l)  == LET b == last(l) IN
                 IF b = 0 THEN Zero
                 ELSE LET ks == {k \in 1 .. Len(s.bands[b]) : s.bands[b][k].l = l}
                          k  == CHOOSE x \in ks : \A y \in ks : y <= x
                      IN  RDiv(bp[b], s.bands[b][k].f)
  IN  Eager([l1 \in 1 .. s.lmax + 1 |-> val(l1 - 1)])
Disjoint(s)     == \A b1, b2 \in 1 .. NB(s) : \A k1 \in 1 .. Len(s.bands[b1]), k2 \in 1 .. Len(s.bands[b2]) :
                      s.bands[b1][k1].l = s.bands[b2][k2].l => (b1 = b2 /\ k1 = k2)
================================================================================
