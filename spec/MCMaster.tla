-------------------------------- MODULE MCMaster --------------------------------
(***************************************************************************)
(* The whole chain: over skies whose spectra are constant in every band,   *)
(* the mean pseudo-spectra of masked, purified and template-cleaned fields *)
(* less the deprojection bias, decoupled, are the bandpowers exactly.      *)
(***************************************************************************)
EXTENDS Field, Workspace, TLC
CONSTANTS Deep, Mutant
VARIABLES v_cs, ready
LW == 1
P(k) == IF k = 0 THEN <<0, 0>> ELSE IF k = 1 THEN <<0, 1>> ELSE IF k = 2 THEN <<1, 0>> ELSE <<1, 1>>
(* spin, purified components and number of templates of both fields, whether they are one *)
Cases == {<<0, 0, 1, 0, 0, 0, 0>>, <<0, 0, 1, 2, 0, 1, 0>>, <<1, 0, 1, 0, 0, 0, 0>>, <<1, 0, 1, 1, 0, 0, 1>>}
         \cup (IF Deep = 0 THEN {} ELSE {<<2, 0, 1, 2, 0, 0, 1>>, <<2, 1, 0, 2, 0, 1, 0>>, <<2, 1, 1, 2, 1, 0, 1>>, <<2, 2, 1, 0, 0, 1, 0>>, <<2, 3, 1, 2, 0, 1, 0>>, <<0, 0, 2, 2, 3, 0, 0>>, <<1, 0, 1, 2, 1, 1, 0>>, <<3, 0, 1, 2, 0, 1, 0>>, <<3, 0, 1, 0, 0, 1, 0>>})
Init == v_cs = <<>> /\ ready = FALSE
Next == \/ v_cs = <<>> /\ v_cs' \in Cases /\ ready' = FALSE
        \/ v_cs # <<>> /\ ~ready /\ v_cs' = v_cs /\ ready' = TRUE
Spec == Init /\ [][Next]_<<v_cs, ready>>
SMax == Max2(v_cs[1], v_cs[4])
L  == Max2(2, SMax + 1)
N0 == 2 * L + LW + 1
G0 == Car(N0, 0, N0 + 1, N0, N0, RFrac(1, 7))
NPx == (N0 + 1) * N0
WAlm(k) == <<Eager(<<RInt(5 + k), RFrac(k, 3), RFrac(-2, 5)>>), Eager(<<RInt(0), RInt(0), RFrac(1, k + 1)>>)>>
Mask(k) == Alm2Map(Basis(G0, 0, LW), <<WAlm(k)>>)[1]
Num(k, x) == RFrac(((37 * x + 11 * k * x * x + 5 * k) % 41) - 20, 10)
Map(k, s) == Eager([a \in 1 .. NMap(s) |-> Eager([x \in 1 .. NPx |-> Num(2 * k + a, x)])])
Fld(s, q, k, nt) == WithTemplates(Describe(G0, s, q, RndM(<<Mask(k)>>)[1], L, 2, 0, 0), Eager([t \in 1 .. nt |-> Map(3 * k + t, s)]))
Pcl(a, b) == AlmCl(WAlm(a), WAlm(b), LW)
Bools(q) == <<q[1] = 1, q[2] = 1>>
Scheme == LET lo == SMax
              n  == L + 1 - lo
          IN  Create([lmax |-> L, ells |-> [j \in 1 .. n |-> lo + j - 1], bpws |-> [j \in 1 .. n |-> (j - 1) \div 2], ws |-> [j \in 1 .. n |-> RFrac(2, j + 1)], fs |-> [j \in 1 .. n |-> RFrac(j + 2, 3)]])
Unbiased == ready =>
  LET D1 == Fld(v_cs[1], P(v_cs[2]), 1, v_cs[3])
      D2 == IF v_cs[7] = 1 THEN D1 ELSE Fld(v_cs[4], P(v_cs[5]), 2, v_cs[6])
      n  == NCls(v_cs[1], v_cs[4])
      M  == MatrixP(Pcl(1, IF v_cs[7] = 1 THEN 1 ELSE 2), v_cs[1], Bools(P(v_cs[2])), v_cs[4], Bools(D2.F.q), L)
      S  == Scheme
      r  == Build(n, L, M, Eager([l \in 1 .. L + 1 |-> RInt(1)]), S, "MASTER", RInt(0))
      bp == Eager([a \in 1 .. n |-> Eager([b \in 1 .. NB(S) |-> RFrac(((5 * a + 3 * b) % 7) + 1, 2)])])
      C  == Eager([a \in 1 .. n |-> UnbinOne(S, bp[a])])
      E  == Ensemble(D1, D2, C)
      bias == SignalBiasFormula(D1, D2, C)
      est == SubSp(E.cleaned, bias)
      B  == Binned(r)
      Close(x, y) == RWithin(x, y, RMul(RStr("1e-40"), RMaxAbs(y)))
  IN  /\ Close(E.raw, Couple(r, C))
      /\ (Mutant = "nobias") \/ Close(RMatVec(B, Flatten(n, NB(S), bp)), Rhs(r, est))
      /\ (Mutant = "nobias") => Close(RMatVec(B, Flatten(n, NB(S), bp)), Rhs(r, E.cleaned))
==================================================================================
