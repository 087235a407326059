------------------------------ MODULE TraceWorkspace ------------------------------
(***************************************************************************)
(* Recorded histories of workspaces against module Workspace.              *)
(* The case's header lists ingredients (field pairs with the coupling      *)
(* matrix of a fresh workspace, beams, schemes, replacement matrices);     *)
(* events refer to them by number.  The specified state holds, for every   *)
(* workspace and file, which ingredients were last put in place.           *)
(***************************************************************************)
EXTENDS TraceBins, Workspace, Sphere

Empty       == [ok |-> FALSE, unb |-> FALSE, pair |-> 0, mat |-> 0, beam |-> 0, bins |-> 0, norm |-> ""]
WStart(cs)  == [w |-> [k \in 1 .. cs.nw |-> Empty], f |-> [k \in 1 .. cs.nf |-> Empty]]

Scheme(cs, k) == Create(Request(cs.schemes[k]))
Prod(a, b, n) == [l \in 1 .. n |-> RMul(RStr(a[l]), RStr(b[l]))]
(* over the sphere; pixels of equal area, or those of a grid *)
MeanProd(a, b) == RDiv(RDot(RVec(a), RVec(b)), RInt(Len(a)))
MeanOver(g, a, b) == RDiv(DotMap(Car(g.N, g.j0, g.n, g.M, g.m, RStr(g.q)), RVec(a), RVec(b)), FourPi)
W2of(cs, id)  == IF id.norm # "FKP" THEN Zero
                 ELSE LET p == cs.pairs[id.pair] IN IF p.w2 = "noise" THEN RStr(p.noise) ELSE IF p.w2 = "grid" THEN MeanOver(p.grid, p.m1, p.m2) ELSE MeanProd(p.m1, p.m2)
Contents(cs, id) ==
  LET p == cs.pairs[id.pair]
  IN  Build(p.n, p.lmax, RMat(IF id.mat = 0 THEN p.mat ELSE cs.mats[id.mat]),
            IF id.beam = 0 THEN Prod(p.b1, p.b2, p.lmax + 1) ELSE Prod(cs.beams[id.beam][1], cs.beams[id.beam][2], p.lmax + 1),
            Scheme(cs, id.bins), id.norm, W2of(cs, id))

Reply(ok, e)  == IF ok THEN Holds("valid_request_accepted", e.err = "", e.op \o ": " \o e.err)
                 ELSE Holds("bad_request_refused", e.err # "", e.op \o " succeeded: " \o ToString(e.why))
(* ------------------------------------------------------------------ requests *)
At(s, k, x)   == [s EXCEPT !.w[k] = x]
Do(s, e, ok, x) == Judge(IF ok THEN At(s, e.w, x) ELSE s, Reply(ok, e))
LmaxOf(cs, id) == cs.pairs[id.pair].lmax
Up(x)         == x.ok /\ x.unb
DoCompute(cs, s, e) == Do(s, e, e.valid = 1, [ok |-> TRUE, unb |-> TRUE, pair |-> e.pair, mat |-> 0, beam |-> 0, bins |-> e.bins, norm |-> e.norm])
DoBeams(cs, s, e)   == LET x == s.w[e.w] IN Do(s, e, Up(x) /\ e.l1 > LmaxOf(cs, x) /\ e.l2 > LmaxOf(cs, x), [x EXCEPT !.beam = e.b])
DoBins(cs, s, e)    == LET x == s.w[e.w] IN Do(s, e, Up(x) /\ Request(cs.schemes[e.s]).lmax = LmaxOf(cs, x), [x EXCEPT !.bins = e.s])
DoMatrix(cs, s, e)  == LET x == s.w[e.w] IN Do(s, e, Up(x) /\ e.rows = cs.pairs[x.pair].n * (LmaxOf(cs, x) + 1) /\ e.cols = e.rows, [x EXCEPT !.mat = e.m])
DoWrite(cs, s, e)   == LET x == s.w[e.w] ok == Up(x) /\ e.place = 1 IN Judge(IF ok THEN [s EXCEPT !.f[e.f] = x] ELSE s, Reply(ok, e))
DoLoad(cs, s, e)    == Do(s, e, e.f > 0 /\ s.f[IF e.f > 0 THEN e.f ELSE 1].ok, [s.f[IF e.f > 0 THEN e.f ELSE 1] EXCEPT !.unb = (e.unb = 1)])
(* ------------------------------------------------------------------ answers *)
Wide(e, n, len)  == e.shape[1] = n /\ e.shape[2] >= len
AbsR(r)          == [r EXCEPT !.M = RAbsM(r.M), !.beam = RAbsM(r.beam)]
AbsSum(M, v)     == RMaxAbs(RMatVec(RAbsM(M), RAbsM(v)))
Eps              == RStr("1e-12")
Floor300         == RStr("1e-280")
DoGet(cs, s, e)  ==
  LET x == s.w[e.w] IN
  Judge(s, IF ~ Up(x) THEN Reply(FALSE, e)
           ELSE IF e.err # "" THEN Reply(TRUE, e)
           ELSE NearRel("stored_matrix", e.out, RMat(IF x.mat = 0 THEN cs.pairs[x.pair].mat ELSE cs.mats[x.mat]), RStr("1e-13")))
DoCouple(cs, s, e) ==
  LET x == s.w[e.w]
      p == cs.pairs[x.pair]
      ok == Up(x) /\ Wide(e, p.n, p.lmax + 1)
  IN  Judge(s, IF ~ ok \/ e.err # "" THEN Reply(ok, e)
               ELSE LET r == Contents(cs, x)
                        cl == RMat(e.cl)
                        big == AbsSum(Beamed(r, r.M), Flatten(r.n, r.lmax + 1, cl))
                    IN  Near("couple_cell", e.out, Couple(r, cl), RAdd(RMul(Eps, big), Floor300)) \o Same("input_unchanged", e.after, e.cl))
BinnedMag(r) == IF r.norm = "FKP" THEN RAbsM(Binned(r)) ELSE BinnedOf(AbsR(r), RAbsM(r.M))
(* B x = rhs, up to the rounding of the terms that make B and rhs *)
Residual(name, r, B, obs, rhs, big) ==
  LET x == Flatten(r.n, NB(r.bins), RMat(obs))
  IN  IF \A a \in 1 .. Len(obs) : RVecOk(obs[a]) THEN Near(name, RMatVec(B, x), rhs, RAdd(RMul(Eps, RAdd(big, RMul(RMaxAbs(BinnedMag(r)), RSum(RAbsM(x))))), Floor300))
      ELSE Fail(name, "not a number: " \o ToString(obs))
Shaped(obs, n, m) == Len(obs) = n /\ \A a \in 1 .. n : Len(obs[a]) = m
DoDecouple(cs, s, e) ==
  LET x == s.w[e.w]
      p == cs.pairs[x.pair]
      ok == x.ok /\ Wide(e, p.n, p.lmax + 1) /\ (e.nsh = <<>> \/ Wide([shape |-> e.nsh], p.n, p.lmax + 1)) /\ (e.bsh = <<>> \/ Wide([shape |-> e.bsh], p.n, p.lmax + 1))
  IN  IF ~ ok THEN Judge(s, Reply(FALSE, e))
      ELSE LET r == Contents(cs, x)
               B == Binned(r)
               dead == DeadBand(B)
               z == RMat(e.cl)
               tot == [a \in 1 .. r.n |-> Eager([l \in 1 .. r.lmax + 1 |->
                         RSub(RSub(z[a][l], IF e.nsh = <<>> THEN Zero ELSE RStr(e.noise[a][l])), IF e.bsh = <<>> THEN Zero ELSE RStr(e.bias[a][l]))])]
               mag == [a \in 1 .. r.n |-> Eager([l \in 1 .. r.lmax + 1 |->
                         RAdd(RAdd(RAbs(z[a][l]), IF e.nsh = <<>> THEN Zero ELSE RAbs(RStr(e.noise[a][l]))), IF e.bsh = <<>> THEN Zero ELSE RAbs(RStr(e.bias[a][l])))])]
           IN  Judge(s, IF dead THEN Holds("singular_system_refused", e.err # "", "decouple_cell answered " \o ToString(e.out))
                        ELSE IF e.err # "" THEN (IF RInv(B) = <<>> THEN <<>> ELSE Reply(TRUE, e))
                        ELSE IF ~ Shaped(e.out, r.n, NB(r.bins)) THEN Fail("decouple_shape", ToString(e.out))
                        ELSE Residual("decouple_cell", r, B, e.out, Rhs(r, tot), RMaxAbs(Rhs(r, mag)))
                             \o Same("input_unchanged", e.after, <<e.cl, e.noise, e.bias>>))
(* Windows, out[a][b][c][l]: W B-inverse needs the conditioning of B for its rounding. *)
DoWindows(cs, s, e) ==
  LET x == s.w[e.w] IN
  IF ~ Up(x) THEN Judge(s, Reply(FALSE, e))
  ELSE LET r == Contents(cs, x)
           B == Binned(r)
           Bi == RInv(B)
           n == r.n
           Rr == WindowRhs(r)
           cond == RMul(RMaxAbs(RAbsM(B)), RMaxAbs(RAbsM(Bi)))
           tol == RMul(RMul(Eps, RInt(Len(B) * Len(B))), RMul(cond, RMaxAbs(WindowRhs(AbsR(r)))))
           W == Eager([q \in 1 .. Len(B) |-> Eager([j \in 1 .. Len(Rr[1]) |-> RStr(e.out[((q - 1) % n) + 1][((q - 1) \div n) + 1][((j - 1) % n) + 1][((j - 1) \div n) + 1])])])
       IN  Judge(s, IF DeadBand(B) THEN Holds("singular_system_refused", e.err # "", "get_bandpower_windows answered")
                    ELSE IF Bi = <<>> THEN <<>>
                    ELSE IF e.err # "" THEN Reply(TRUE, e)
                    ELSE IF RLt(RStr("1e11"), cond) THEN <<>>
                    ELSE IF e.wshape # <<n, NB(r.bins), n, r.lmax + 1>> THEN Fail("windows_shape", ToString(e.wshape))
                    ELSE IF e.finite = 0 THEN Fail("bandpower_windows", "not finite")
                    ELSE Near("bandpower_windows", RMatMul(B, W), Rr, RAdd(tol, Floor300)))
(* decouple_cell(couple_cell(NmtBin.unbin_cell(bp))) *)
DoRound(cs, s, e) ==
  LET x == s.w[e.w] IN
  IF ~ Up(x) THEN Judge(s, <<>>)
  ELSE LET r == Contents(cs, x)
           B == Binned(r)
           Bi == RInv(B)
           cond == RMul(RMaxAbs(RAbsM(B)), RMaxAbs(RAbsM(Bi)))
       IN  Judge(s, IF r.norm # "MASTER" \/ ~ Disjoint(r.bins) \/ Bi = <<>> \/ DeadBand(B) THEN <<>>
                    ELSE IF e.err # "" THEN Reply(TRUE, e)
                    ELSE IF RLt(RStr("1e11"), cond) THEN <<>>
                    ELSE Near("decouple_couple_unbin_is_identity", e.out, RMat(e.bp), RMul(RMul(RMul(Eps, RInt(Len(B) * Len(B))), cond), RMaxAbs(RMat(e.bp)))))

(* compute_full_master with a given workspace (w > 0) or a new one; pcl and bias: what the steps give *)
DoFull(cs, s, e) ==
  LET x == IF e.w > 0 THEN s.w[e.w] ELSE [ok |-> TRUE, unb |-> TRUE, pair |-> e.pair, mat |-> 0, beam |-> 0, bins |-> e.bins, norm |-> e.norm]
      ok == e.valid = 1 /\ x.ok /\ (e.w = 0 => Request(cs.schemes[e.bins]).lmax = LmaxOf(cs, x))
  IN  IF ~ ok THEN Judge(s, Reply(FALSE, e))
      ELSE LET r == Contents(cs, x)
               B == Binned(r)
               z == RMat(e.pcl)
               G(k, a, l) == IF Len(e[k]) = 0 THEN Zero ELSE RStr(e[k][a][l])
               tot == [a \in 1 .. r.n |-> Eager([l \in 1 .. r.lmax + 1 |-> RSub(RSub(z[a][l], G("noise", a, l)), G("bias", a, l))])]
               mag == [a \in 1 .. r.n |-> Eager([l \in 1 .. r.lmax + 1 |-> RAdd(RAdd(RAbs(z[a][l]), RAbs(G("noise", a, l))), RAbs(G("bias", a, l)))])]
           IN  Judge(s, IF DeadBand(B) \/ RInv(B) = <<>> THEN <<>>
                        ELSE IF e.err # "" THEN Reply(TRUE, e)
                        ELSE IF ~ Shaped(e.out, r.n, NB(r.bins)) THEN Fail("full_shape", ToString(e.out))
                        ELSE Residual("compute_full_master", r, B, e.out, Rhs(r, tot), RMaxAbs(Rhs(r, mag))) \o Same("nothing_else_changed", e.kept, 1))
WStep(cs, s, e) ==
  CASE e.op = "Reset"    -> OK(WStart(cs))
    [] e.op = "Compute"  -> DoCompute(cs, s, e)
    [] e.op = "Beams"    -> DoBeams(cs, s, e)
    [] e.op = "Bins"     -> DoBins(cs, s, e)
    [] e.op = "Matrix"   -> DoMatrix(cs, s, e)
    [] e.op = "Write"    -> DoWrite(cs, s, e)
    [] e.op = "Load"     -> DoLoad(cs, s, e)
    [] e.op = "Get"      -> DoGet(cs, s, e)
    [] e.op = "Couple"   -> DoCouple(cs, s, e)
    [] e.op = "Decouple" -> DoDecouple(cs, s, e)
    [] e.op = "Windows"  -> DoWindows(cs, s, e)
    [] e.op = "Full"     -> DoFull(cs, s, e)
    [] e.op = "Round"    -> DoRound(cs, s, e)
==================================================================================
