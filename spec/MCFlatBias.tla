------------------------------- MODULE MCFlatBias -------------------------------
(***************************************************************************)
(* The closed form of the flat-sky deprojection bias is the ensemble mean  *)
(* of the change of the spectra, for every pair of spins and purifications *)
(* and any numbers of templates, also with excluded strips.                *)
(***************************************************************************)
EXTENDS Flat, TLC
CONSTANT Deep
VARIABLES v_c1, ready
G0 == Patch(3, 5, RFrac(3, 4), RFrac(6, 7))
NPx == 15
Num(k, x) == RFrac(((37 * x + 11 * k * x * x + 5 * k) % 41) - 20, 10)
Map(k, s) == Eager([a \in 1 .. NM(s) |-> Eager([x \in 1 .. NPx |-> Num(2 * k + a, x)])])
Mask(k)   == Eager([x \in 1 .. NPx |-> RFrac(((x * x * (k + 1) + 3 * x) % 7) + (IF k = 1 THEN 0 ELSE 1), 4)])
Fld(s, q, k, nt) ==
  LET w  == Mask(k)
      t  == Eager([j \in 1 .. nt |-> Map(3 * k + j, s)])
      f  == Eager([j \in 1 .. nt |-> MulMap(t[j], w)])
  IN  [s |-> s, q |-> q, w |-> w, f |-> f, iM |-> IF nt = 0 THEN <<>> ELSE RInv(GramF(G0, f)), af |-> Eager([j \in 1 .. nt |-> Modes(G0, s, q, w, t[j])])]
P(k) == IF k = 0 THEN <<0, 0>> ELSE IF k = 1 THEN <<0, 1>> ELSE IF k = 2 THEN <<1, 0>> ELSE <<1, 1>>
Cases == IF Deep = 0 THEN {<<0, 0, 1, 0, 0, 2>>, <<0, 0, 2, 2, 0, 1>>, <<2, 0, 1, 2, 0, 0>>, <<2, 0, 2, 2, 1, 1>>, <<1, 0, 1, 2, 0, 1>>, <<2, 3, 1, 0, 0, 1>>, <<3, 0, 1, 2, 2, 1>>}
         ELSE {q \in {<<a, p, n, b, r, m>> : a \in 0 .. 3, p \in 0 .. 3, n \in 0 .. 2, b \in 0 .. 3, r \in 0 .. 3, m \in 0 .. 2} :
                  (q[1] # 2 => q[2] = 0) /\ (q[4] # 2 => q[5] = 0) /\ q[3] + q[6] > 0}
Init == v_c1 = <<>> /\ ready = FALSE
Next == \/ v_c1 = <<>> /\ v_c1' \in Cases /\ ready' = FALSE
        \/ v_c1 # <<>> /\ ~ready /\ v_c1' = v_c1 /\ ready' = TRUE
Spec == Init /\ [][Next]_<<v_c1, ready>>
Bands == [l0 |-> <<RInt(0), RInt(10)>>, lf |-> <<RInt(10), RInt(30)>>]
CutB  == <<<<RInt(5), RInt(9)>>, <<RInt(-16), RInt(-13)>>>>
Bm    == BandModes(G0, Bands, CutB)
CC(n) == Eager([p \in 1 .. n |-> Eager([j \in 1 .. NPx |-> RAdd(RInt(p), RFrac((p * 3 + 2) % 5, 7 + RFloor(G0.k[j])))])])
Close(x, y) == RWithin(x, y, RMul(RStr("1e-40"), RAdd(RInt(1), RMaxAbs(x))))
Bias == ready => LET a == Fld(v_c1[1], P(v_c1[2]), 1, v_c1[3])
                     b == Fld(v_c1[4], P(v_c1[5]), 2, v_c1[6])
                     C == CC(NM(v_c1[1]) * NM(v_c1[4]))
                 IN  Close(EnsembleF(G0, a, b, C, Bm), BiasF(G0, a, b, C, Bm))
=================================================================================
