-------------------------------- MODULE TraceCovar --------------------------------
(***************************************************************************)
(* Recorded histories of covariance workspaces and the covariances they    *)
(* give, against modules Covar and Workspace.                              *)
(* Header: masks on a grid, fields (mask, lmax), power-spectrum workspaces *)
(* (as in TraceWorkspace, with the scheme and normalisation they were last *)
(* given).  State: what each covariance workspace and file holds - the     *)
(* kernels of the two pairings, derived from the masks.                    *)
(***************************************************************************)
EXTENDS TraceWorkspace, Covar

NoCov == [ok |-> FALSE, s0 |-> FALSE, lmax |-> 0, K1 |-> <<>>, K2 |-> <<>>]
VStart(cs) == [w |-> [k \in 1 .. cs.nw |-> NoCov], f |-> [k \in 1 .. cs.nf |-> NoCov]]

Grid(g)     == IF g.kind = "hpx" THEN Hpx(g.nside) ELSE Car(g.N, g.j0, g.n, g.M, g.m, RStr(g.q))
FullGrid(g) == IF g.kind = "hpx" THEN Hpx(g.nside) ELSE Car(g.N, g.j0, g.n, g.M, g.M, RStr(g.q))
Padded(g, v) == IF g.kind = "hpx" \/ g.m = g.M THEN v
                ELSE Eager([x \in 1 .. g.n * g.M |-> LET col == (x - 1) % g.M
                                                         row == (x - 1) \div g.M
                                                     IN  IF col < g.m THEN v[row * g.m + col + 1] ELSE RInt(0)])
Times(u, v) == Eager([p \in 1 .. Len(u) |-> RMul(u[p], v[p])])
(* multipoles of the product of the masks of two fields *)
ProdAlm(cs, B, f1, f2) == Map2Alm(B, <<Padded(cs.grid, Times(RVec(cs.masks[cs.fields[f1].mask]), RVec(cs.masks[cs.fields[f2].mask])))>>, cs.niter)
Tables(p, lmax, s0, t) ==
  LET K == IF s0 THEN Kernels0(p, lmax) ELSE Kernels4(p, lmax)
      Q(X) == IF t[1] <= 0 THEN X ELSE Eager([l1 \in 1 .. lmax + 1 |-> Eager([k1 \in 1 .. lmax + 1 |-> Toep(X, l1 - 1, k1 - 1, t[1], t[2], t[3], lmax)])])
  IN  [s |-> Q(K.s), x |-> Q(K.x), p |-> Q(K.p), m |-> Q(K.m)]
DoKernels(cs, s, e) ==
  LET ok == e.valid = 1 /\ ToepValid(e.t, cs.lmax)
      B == Basis(FullGrid(cs.grid), 0, cs.lmask)
      X(f1, f2) == ProdAlm(cs, B, f1, f2)
      C12(u, v) == Spectra(u, v, cs.lmask)[1]
      K(p) == Tables(p, cs.lmax, e.s0 = 1, e.t)
      new == [ok |-> TRUE, s0 |-> e.s0 = 1, lmax |-> cs.lmax,
              K1 |-> K(C12(X(e.f[1], e.f[3]), X(e.f[2], e.f[4]))), K2 |-> K(C12(X(e.f[1], e.f[4]), X(e.f[2], e.f[3])))]
  IN  Judge(IF ok THEN [s EXCEPT !.w[e.w] = new] ELSE s, Reply(ok, e))
DoSave(cs, s, e) == LET ok == s.w[e.w].ok /\ e.place = 1 IN Judge(IF ok THEN [s EXCEPT !.f[e.f] = s.w[e.w]] ELSE s, Reply(ok, e))
Lower(x, s0) == IF s0 /\ ~ x.s0 THEN [x EXCEPT !.s0 = TRUE, !.K1 = [x.K1 EXCEPT !.x = x.K1.s, !.p = x.K1.s, !.m = x.K1.s], !.K2 = [x.K2 EXCEPT !.x = x.K2.s, !.p = x.K2.s, !.m = x.K2.s]] ELSE x
DoFetch(cs, s, e) == LET ok == e.f > 0 /\ s.f[IF e.f > 0 THEN e.f ELSE 1].ok
                     IN  Judge(IF ok THEN [s EXCEPT !.w[e.w] = Lower(s.f[e.f], e.s0 = 1)] ELSE s, Reply(ok, e))

(* a request that can be answered *)
CovOK(cs, x, e) == /\ x.ok
                   /\ (x.s0 => e.sp = <<0, 0, 0, 0>>)
                   /\ cs.wsp[e.a].n = NCls(e.sp[1], e.sp[2]) /\ cs.wsp[e.b].n = NCls(e.sp[3], e.sp[4])
                   /\ cs.wsp[e.a].lmax <= x.lmax /\ cs.wsp[e.b].lmax <= x.lmax
                   /\ e.shape.ac[1] = NCls(e.sp[1], e.sp[3]) /\ e.shape.ad[1] = NCls(e.sp[1], e.sp[4])
                   /\ e.shape.bc[1] = NCls(e.sp[2], e.sp[3]) /\ e.shape.bd[1] = NCls(e.sp[2], e.sp[4])
                   /\ \A q \in {"ac", "ad", "bc", "bd"} : e.shape[q][2] > x.lmax
Guessed(e)  == [ac |-> RMat(e.cl.ac), ad |-> RMat(e.cl.ad), bc |-> RMat(e.cl.bc), bd |-> RMat(e.cl.bd)]
DoCoupledCov(cs, s, e) ==
  LET x == s.w[e.w] IN
  IF ~ CovOK(cs, x, e) THEN Judge(s, Reply(FALSE, e))
  ELSE IF e.err # "" THEN Judge(s, Reply(TRUE, e))
  ELSE LET want == CovMatrix(x.K1, x.K2, e.sp, Guessed(e), x.lmax)
       IN  Judge(s, IF ~ Shaped(e.out, Len(want), Len(want[1])) THEN Fail("coupled_covariance_shape", ToString(e.oshape))
                    ELSE NearRel("coupled_covariance", e.out, want, RStr("1e-11")) \o Same("input_unchanged", e.after, e.cl))
(* binned and sandwiched: A X transpose(B) is the binned matrix *)
W2Cov(cs, p) == RDiv(DotMap(Grid(cs.grid), RVec(cs.masks[p.m1]), RVec(cs.masks[p.m2])), FourPi)
WspOf(cs, k) == LET p == cs.wsp[k]
                IN  Build(p.n, p.lmax, RMat(p.mat), Prod(p.b1, p.b2, p.lmax + 1), Scheme(cs, p.bins), p.norm, IF p.norm = "FKP" THEN W2Cov(cs, p) ELSE Zero)
DoCov(cs, s, e) ==
  LET x == s.w[e.w] IN
  IF ~ CovOK(cs, x, e) THEN Judge(s, Reply(FALSE, e))
  ELSE LET ra == WspOf(cs, e.a)
           rb == WspOf(cs, e.b)
           A == Binned(ra)
           B == Binned(rb)
           Ai == RInv(A)
           Bi == RInv(B)
           ca == RMul(RMaxAbs(RAbsM(A)), RMaxAbs(RAbsM(Ai)))
           cb == RMul(RMaxAbs(RAbsM(B)), RMaxAbs(RAbsM(Bi)))
           n == RInt(Len(A) * Len(B))
           full == CovMatrix(x.K1, x.K2, e.sp, Guessed(e), x.lmax)
           Pa == Binning(ra.bins, ra.n, x.lmax)
           Pb == RTranspose(Binning(rb.bins, rb.n, x.lmax))
           want == RMatMul(RMatMul(Pa, full), Pb)
           mag == RMaxAbs(RMatMul(RMatMul(RAbsM(Pa), RAbsM(full)), RAbsM(Pb)))
           tol == RMul(RMul(RStr("1e-13"), n), RMul(RMul(ca, cb), mag))
           tol2 == RMul(RStr("1e-11"), mag)
       IN  IF Ai = <<>> \/ Bi = <<>> \/ DeadBand(A) \/ DeadBand(B) THEN Judge(s, <<>>)
           ELSE IF e.err # "" THEN Judge(s, Reply(TRUE, e))
           ELSE IF ~ Shaped(e.out, Len(A), Len(B)) THEN Judge(s, Fail("covariance_shape", ToString(e.oshape)))
           ELSE IF RLt(RStr("1e8"), RMul(ca, cb)) THEN Judge(s, <<>>)
           ELSE Judge(s, Near("covariance", RMatMul(RMatMul(A, RMat(e.out)), RTranspose(B)), want, RAdd(tol, tol2)) \o Same("input_unchanged", e.after, e.cl))
VStep(cs, s, e) ==
  CASE e.op = "Kernels" -> DoKernels(cs, s, e)
    [] e.op = "Save"    -> DoSave(cs, s, e)
    [] e.op = "Fetch"   -> DoFetch(cs, s, e)
    [] e.op = "Coupled" -> DoCoupledCov(cs, s, e)
    [] e.op = "Cov"     -> DoCov(cs, s, e)
    [] e.op = "Refuse"  -> Judge(s, Reply(FALSE, e))
==================================================================================
