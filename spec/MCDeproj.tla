--------------------------------- MODULE MCDeproj ---------------------------------
(***************************************************************************)
(* The closed forms of the deprojection biases against ensemble means, for *)
(* pairs of fields of every spin with and without purification, with any   *)
(* numbers of templates, on a coarse grid.                                 *)
(***************************************************************************)
EXTENDS Field, TLC
CONSTANTS Deep, Mutant
VARIABLES v_c1, ready                            \* two steps, for the workers to share the cases
G0 == Car(3, 0, 4, 4, 4, RFrac(1, 7))
NPx == 16
Num(k, x) == RFrac(((37 * x + 11 * k * x * x + 5 * k) % 41) - 20, 10)                 \* arbitrary numbers
Map(k, s) == Eager([a \in 1 .. NMap(s) |-> Eager([x \in 1 .. NPx |-> Num(2 * k + a, x)])])
Mask(k)   == Eager([x \in 1 .. NPx |-> RFrac(((x * x * (k + 1) + 3 * x) % 7) + (IF k = 1 THEN 0 ELSE 1), 4)])
Cl(n)     == Eager([p \in 1 .. n |-> Eager([l \in 1 .. 3 |-> RFrac(((p * 7 + l * l * 3) % 11) + 1, 5)])])
Fld(s, q, k, nt, n) == LET F == Describe(G0, s, q, Mask(k), 2, 2, n, 0) IN WithTemplates(F, Eager([t \in 1 .. nt |-> Map(3 * k + t, s)]))
Close(x, y) == RWithin(x, y, RMul(RStr("1e-40"), RMaxAbs(x)))
(* cases: <<s1, pure1, nt1, s2, pure2, nt2>> *)
P(k) == IF k = 0 THEN <<0, 0>> ELSE IF k = 1 THEN <<0, 1>> ELSE IF k = 2 THEN <<1, 0>> ELSE <<1, 1>>
Cases == IF Deep = 0 THEN {<<0, 0, 1, 0, 0, 2>>, <<0, 0, 2, 2, 0, 1>>, <<2, 0, 1, 2, 0, 0>>, <<2, 0, 2, 2, 0, 1>>, <<1, 0, 1, 2, 0, 1>>, <<2, 3, 1, 0, 0, 1>>, <<2, 1, 2, 0, 0, 1>>, <<2, 2, 1, 1, 0, 1>>}
         ELSE {q \in {<<a, p, n, b, r, m>> : a \in 0 .. 2, p \in 0 .. 3, n \in 0 .. 2, b \in 0 .. 2, r \in 0 .. 3, m \in 0 .. 2} :
                  (q[1] # 2 => q[2] = 0) /\ (q[4] # 2 => q[5] = 0) /\ q[3] + q[6] > 0 /\ (q[1] + q[2] + q[3] + q[4] + q[5] + q[6]) % 3 = 0}
Init == v_c1 = <<>> /\ ready = FALSE
Next == \/ v_c1 = <<>> /\ v_c1' \in Cases /\ ready' = FALSE
        \/ v_c1 # <<>> /\ ~ready /\ v_c1' = v_c1 /\ ready' = TRUE
Spec == Init /\ [][Next]_<<v_c1, ready>>
D1(n) == Fld(v_c1[1], P(v_c1[2]), 1, v_c1[3], n)
D2(n) == Fld(v_c1[4], P(v_c1[5]), 2, v_c1[6], n)
Tr(x) == Eager([p \in 1 .. Len(x) |-> x[Len(x) + 1 - p]])
Signal == ready => LET a == D1(0)
              b == D2(0)
              C == Cl(NMap(v_c1[1]) * NMap(v_c1[4]))
          IN  Close(SignalBias(a, b, C), SignalBiasFormula(a, b, IF Mutant = "swap" THEN Tr(C) ELSE C))
Noise  == ready => LET a == D1(1)
              v == Eager([x \in 1 .. NPx |-> RFrac((x * x % 9) + 1, 3)])
          IN  Close(NoiseBias(a, v), NoiseBiasFormula(a, v))
===================================================================================
