-------------------------------- MODULE MCCatalog --------------------------------
(***************************************************************************)
(* What shot noise is: the part of a catalog's spectra due to sources      *)
(* correlated with themselves.  Built source by source: at every step the  *)
(* spectra less noise are those of pairs of different sources.             *)
(***************************************************************************)
EXTENDS Catalog, TLC
CONSTANTS N, Deep, Mutant
VARIABLES v_s, ids                                            \* spin, and the sources present, in order
vars == <<v_s, ids>>
LM == IF Deep = 0 THEN 3 ELSE 4
Th(k) == RMul(RPi, RFrac(((7 * k * k + 3 * k) % 19) + 1, 21))
Ph(k) == RMul(RPi, RFrac(((11 * k * k + 5 * k) % 37), 19))
W(k)  == RFrac(((5 * k * k + k) % 7) + 1, 3)
F(k)  == <<RFrac(((13 * k + 3 * k * k) % 23) - 11, 5), RFrac(((17 * k + 5 * k * k) % 29) - 14, 6)>>
At(q)   == Points(Eager([j \in 1 .. Len(q) |-> Th(q[j])]), Eager([j \in 1 .. Len(q) |-> Ph(q[j])]))
Ws(q)   == Eager([j \in 1 .. Len(q) |-> W(q[j])])
Val(q)  == Weighted(Ws(q), Eager([c1 \in 1 .. (IF v_s = 0 THEN 1 ELSE 2) |-> Eager([j \in 1 .. Len(q) |-> F(q[j])[c1]])]))
Alm(q)  == SumAlm(At(q), v_s, LM, Val(q))
MAlm(q) == SumAlm(At(q), 0, LM, <<Ws(q)>>)
Close(x, y) == RWithin(x, y, RStr("1e-40"))
Range0(q) == {q[j] : j \in 1 .. Len(q)}
Init == v_s \in 0 .. 2 /\ ids = <<>>
Next == \E k \in 1 .. N + 1 : k \notin Range0(ids) /\ Len(ids) < N /\ ids' = Append(ids, k) /\ UNCHANGED v_s
Spec == Init /\ [][Next]_vars
AddAll(x, y) == Eager([p \in 1 .. Len(x) |-> Eager([l \in 1 .. Len(x[p]) |-> RAdd(x[p][l], y[p][l])])])
Nf(q) == IF Mutant = "nmaps" THEN RMul(RInt(Len(Val(q))), FieldNoise(Val(q))) ELSE FieldNoise(Val(q))
(* spectra of pairs of different sources *)
Pairs(q, a(_)) == LET one == Eager([j \in 1 .. Len(q) |-> a(<<q[j]>>)])
                      n   == Len(q)
                      ps  == Eager([k \in 1 .. n * (n - 1) |-> LET i == ((k - 1) \div (n - 1)) + 1
                                                                   j == ((k - 1) % (n - 1)) + 1
                                                               IN  <<i, IF j < i THEN j ELSE j + 1>>])
                      RECURSIVE S(_)
                      S(z) == IF z = 1 THEN Spectra(one[ps[1][1]], one[ps[1][2]], LM) ELSE AddAll(S(z - 1), Spectra(one[ps[z][1]], one[ps[z][2]], LM))
                  IN  S(Len(ps))
Ready == Len(ids) >= 2
(* mask: exactly; field: for scalars exactly, otherwise on average over E and B above its spin *)
MaskPairs  == Ready => Close(LessNoise(Spectra(MAlm(ids), MAlm(ids), LM), 1, MaskNoise(Ws(ids))), Pairs(ids, MAlm))
FieldPairs == Ready =>
   LET x == LessNoise(Spectra(Alm(ids), Alm(ids), LM), IF v_s = 0 THEN 1 ELSE 2, Nf(ids))
       y == Pairs(ids, Alm)
   IN  IF v_s = 0 THEN Close(x, y) ELSE \A l \in v_s .. LM : Close(RAdd(x[1][l + 1], x[4][l + 1]), RAdd(y[1][l + 1], y[4][l + 1]))
(* order does not matter *)
Rev(q) == [j \in 1 .. Len(q) |-> q[Len(q) + 1 - j]]
OrderFree == Ready => Close(Alm(ids), Alm(Rev(ids))) /\ Close(MAlm(ids), MAlm(Rev(ids)))
(* first half data, second half randoms: no monopole, no dependence on the scale of random weights *)
H1 == SubSeq(ids, 1, Len(ids) \div 2)
H2 == SubSeq(ids, (Len(ids) \div 2) + 1, Len(ids))
Dens == DensityAlm(At(H1), At(H2), LM, Ws(H1), Ws(H2))
Clustering == Ready =>
   LET x3 == Eager([j \in 1 .. Len(H2) |-> RMul(RInt(3), W(H2[j]))])
   IN  /\ Close(Dens[1][1][1], RInt(0))
       /\ Close(Dens, DensityAlm(At(H1), At(H2), LM, Ws(H1), x3))
       /\ Close(RandomNoise(Ws(H1), Ws(H2)), RandomNoise(Ws(H1), x3))
(* and its noise is that of all sources with weights w and - alpha x *)
All == At(H1 \o H2)
Wall == <<Ws(H1) \o Eager([j \in 1 .. Len(H2) |-> RNeg(RMul(Alpha(Ws(H1), Ws(H2)), W(H2[j])))])>>
ClusteringNoise == Ready => Close(DensityNoise(Ws(H1), Ws(H2)), FieldNoise(Wall)) /\ Close(Dens, SumAlm(All, 0, LM, Wall))
==================================================================================
