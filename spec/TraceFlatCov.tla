------------------------------- MODULE TraceFlatCov -------------------------------
(***************************************************************************)
(* Recorded histories of flat-sky covariance workspaces and the            *)
(* covariances they give, against modules CovarFlat and Flat.              *)
(* Header: patch, masks, bands, fields (masks), power-spectrum workspaces  *)
(* (spins, purification, masks, beams, bands).  State: what each           *)
(* covariance workspace and each file holds.                               *)
(***************************************************************************)
EXTENDS TraceFlat, CovarFlat

NoCov == [ok |-> FALSE, b |-> 0, K1 |-> <<>>, K2 |-> <<>>]
VStart(cs) == [w |-> [k \in 1 .. cs.nw |-> NoCov], f |-> [k \in 1 .. cs.nf |-> NoCov]]
Reply(ok, e) == IF ok THEN Holds("accepted", e.err = "", e.why \o ": " \o e.err) ELSE Holds("refused", e.err # "", e.why \o " was accepted")

DoKernels(cs, s, e) ==
  LET G == G0(cs)
      W == [q \in 1 .. 4 |-> Eager(RVec(cs.masks[cs.fields[e.f[q]]]))]
      K == PairingsFlat(G, W, AllModes(G, Bands(cs.bands[e.b])))
  IN  Judge([s EXCEPT !.w[e.w] = [ok |-> TRUE, b |-> e.b, K1 |-> K[1], K2 |-> K[2]]], Reply(TRUE, e))
DoSave(cs, s, e) == LET ok == s.w[e.w].ok /\ e.place = 1 IN Judge(IF ok THEN [s EXCEPT !.f[e.f] = s.w[e.w]] ELSE s, Reply(ok, e))
DoFetch(cs, s, e) == LET ok == e.f > 0 /\ s.f[IF e.f > 0 THEN e.f ELSE 1].ok
                     IN  Judge(IF ok THEN [s EXCEPT !.w[e.w] = s.f[e.f]] ELSE s, Reply(ok, e))

(* a request that can be answered *)
CovOK(cs, x, e) == /\ x.ok
                   /\ cs.wsp[e.a].teb = 0 /\ cs.wsp[e.b].teb = 0
                   /\ NM(cs.wsp[e.a].s1) * NM(cs.wsp[e.a].s2) = NCls(e.sp[1], e.sp[2]) /\ NM(cs.wsp[e.b].s1) * NM(cs.wsp[e.b].s2) = NCls(e.sp[3], e.sp[4])
                   /\ cs.bands[cs.wsp[e.a].bands] = cs.bands[x.b] /\ cs.bands[cs.wsp[e.b].bands] = cs.bands[x.b]
                   /\ e.shape.ac = <<NCls(e.sp[1], e.sp[3]), Len(e.larr)>> /\ e.shape.ad = <<NCls(e.sp[1], e.sp[4]), Len(e.larr)>>
                   /\ e.shape.bc = <<NCls(e.sp[2], e.sp[3]), Len(e.larr)>> /\ e.shape.bd = <<NCls(e.sp[2], e.sp[4]), Len(e.larr)>>
MatOf(cs, G, k) ==
  LET p == cs.wsp[k]
      B == Bands(cs.bands[p.bands])
      F == [s1 |-> p.s1, q1 |-> p.q1, s2 |-> p.s2, q2 |-> p.q2, P |-> MaskPower(G, Eager(RVec(cs.masks[p.m1])), Eager(RVec(cs.masks[p.m2]))),
            bm |-> RMulV(BeamAt(G, p.b1), BeamAt(G, p.b2))]
      am == AllModes(G, B)
  IN  MatF(G, F, am, am)
AbsM(M) == Eager([r \in 1 .. Len(M) |-> RAbsM(M[r])])
DoCov(cs, s, e) ==
  LET x == s.w[e.w] IN
  IF ~ CovOK(cs, x, e) THEN Judge(s, Reply(FALSE, e))
  ELSE IF e.err # "" THEN Judge(s, Reply(TRUE, e))
  ELSE LET G == G0(cs)
           A == MatOf(cs, G, e.a)
           B == IF e.b = e.a THEN A ELSE MatOf(cs, G, e.b)
           Ai == RInv(A)
           Bi == RInv(B)
           ca == RMul(RMaxAbs(A), RMaxAbs(Ai))
           cb == RMul(RMaxAbs(B), RMaxAbs(Bi))
           bs == Bands(cs.bands[x.b])
           xs == Eager(RVec(e.larr))
           g(C) == BinGuess(bs, xs, RMat(C))
           want == CovMatrix(x.K1, x.K2, e.sp, [ac |-> g(e.cl.ac), ad |-> g(e.cl.ad), bc |-> g(e.cl.bc), bd |-> g(e.cl.bd)], Len(bs.l0) - 1)
           n == RInt(Len(A) * Len(B))
           tol == RMul(RAdd(RStr("1e-10"), RMul(RMul(RStr("1e-13"), n), RMul(ca, cb))), RMaxAbs(want))
       IN  IF ~ (Len(e.out) = Len(A) /\ \A r \in 1 .. Len(A) : Len(e.out[r]) = Len(B)) THEN Judge(s, Fail("covariance_shape", ToString(e.oshape)))
           ELSE IF ~ \A r \in 1 .. Len(e.out) : RVecOk(e.out[r]) THEN Judge(s, Fail("covariance", "not finite"))
           ELSE IF Ai = <<>> \/ Bi = <<>> THEN Judge(s, <<>>)
           ELSE IF RLt(RStr("1e7"), RMul(ca, cb)) THEN Judge(s, <<>>)
           ELSE Judge(s, Near("covariance", RMatMul(RMatMul(A, RMat(e.out)), RTranspose(B)), want, tol) \o Same("input_unchanged", e.after, e.cl))
(* masks of ones over the whole patch: no coupling, so every band of N modes has covariance 2 C C / N (times 1, or products of guesses) *)
DoUniform(cs, s, e) ==
  LET want == RDiv(RAdd(RMul(RStr(e.ac), RStr(e.bd)), RMul(RStr(e.ad), RStr(e.bc))), RInt(e.modes)) IN
  Judge(s, NearRel("covariance_of_all_modes", e.out, <<want>>, RStr("1e-9")))
VStep(cs, s, e) ==
  CASE e.op = "Kernels" -> DoKernels(cs, s, e)
    [] e.op = "Save"    -> DoSave(cs, s, e)
    [] e.op = "Fetch"   -> DoFetch(cs, s, e)
    [] e.op = "Cov"     -> DoCov(cs, s, e)
    [] e.op = "Uniform" -> DoUniform(cs, s, e)
    [] e.op = "Refuse"  -> Judge(s, Reply(FALSE, e))
==================================================================================
