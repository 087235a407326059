-------------------------------- MODULE TraceBins --------------------------------
(* Recorded executions of the curved-sky binning code against module Bins. *)
EXTENDS Conf, Bins

BStart(cs) == [lmax |-> -1, bands |-> <<>>]

(* The request an event stands for, whichever constructor was used. *)
Request(e) ==
  LET base == CASE e.how = "arrays" -> [ells |-> e.ells, bpws |-> e.bpws, ws |-> RVec(e.ws),
                                        lmax |-> IF e.lmax = -1 THEN SeqMax(e.ells, 0) ELSE e.lmax]
                [] e.how = "linear" -> LinearReq(e.lmax, e.nlb)
                [] e.how = "nside"  -> LinearReq(3 * e.nside - 1, e.nlb)
                [] e.how = "edges"  -> EdgesReq(e.ini, e.end)
      n   == Len(base.ells)
  IN  WithPrefactors(base, CASE e.pre = "f"    -> RVec(e.fs)
                             [] e.pre = "dell" -> [k \in 1 .. n |-> Dell(base.ells[k])]
                             [] OTHER          -> Ones(n))

Tiny == RStr("1e-13")
JudgeNew(s, e, q) ==
  IF ~ Creatable(q)
  THEN Judge(s, Holds("bad_weights_refused", e.err # "", "a band without positive total weight was accepted"))
  ELSE IF e.err # "" THEN Judge(s, Fail("valid_scheme_accepted", e.err))
  ELSE LET n == Create(q) IN
    Judge(n, Same("n_bands", e.obs.nb, NB(n)) \o Same("counts", e.obs.nell, Counts(n)) \o Same("members", e.obs.ells, Ells(n))
             \o Near("weights", e.obs.ws, Weights(n), Tiny) \o Near("effective_ells", e.obs.leff, LEff(n), RMul(Tiny, RInt(n.lmax + 1)))
             \o Same("lmax", e.obs.lmax, n.lmax)
             \o Same("min_ell", e.obs.lmin, LMin(n)) \o Same("max_ell", e.obs.lmaxs, LMax(n)))
JudgeBin(s, e) ==
  LET cl == RMat(e.cl) IN
  LET all == [b \in 1 .. NB(s) |-> [k \in 1 .. Len(s.bands[b]) |-> RMul(RAbs(s.bands[b][k].w), s.bands[b][k].f)]]
      mag == RMul(RMaxAbs(cl), RSum([b \in 1 .. NB(s) |-> RSum(Eager(all[b]))]))          \* size of the terms
  IN  Near("bin_is_weighted_average", e.out, Eager([j \in 1 .. Len(cl) |-> BinOne(s, cl[j])]), RMul(Tiny, mag))
JudgeUnbin(s, e) ==
  LET bp == RMat(e.bp) IN
  NearRel("unbin_is_piecewise", e.out, Eager([j \in 1 .. Len(bp) |-> UnbinOne(s, bp[j])]), Tiny)
JudgeRound(s, e) == IF Disjoint(s) THEN NearRel("bin_after_unbin_is_identity", e.out, RMat(e.bp), Tiny) ELSE <<>>

BStep(cs, s, e) ==
  CASE e.op = "New"    -> JudgeNew(s, e, Request(e))
    [] e.op = "Define" -> IF e.err = "" THEN OK(Create(Request(e))) ELSE Judge(s, Fail("valid_scheme_accepted", e.err))
    [] e.op = "Bin"    -> Judge(s, JudgeBin(s, e) \o Same("input_unchanged", e.after, e.cl))
    [] e.op = "Unbin"  -> Judge(s, JudgeUnbin(s, e) \o Same("input_unchanged", e.after, e.bp))
    [] e.op = "Round"  -> Judge(s, JudgeRound(s, e))
    [] e.op = "Flat1D" -> Judge(s, Same("one_spectrum_alone_equals_in_a_stack", e.alone, e.stack))
================================================================================
