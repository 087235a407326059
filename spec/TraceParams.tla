------------------------------- MODULE TraceParams -------------------------------
(***************************************************************************)
(* Recorded histories of default parameters and of what depends on them.   *)
(* State: the defaults in force, and for every object its description with *)
(* the parameters it resolved when it was made.                            *)
(***************************************************************************)
EXTENDS TraceField, Params

(* rectangular grids cannot use healpy *)
Cannot(s, g) == g.kind # "hpx" /\ s.d.sht = "healpy"
GivenI(x) == IF x < 0 THEN <<>> ELSE <<RInt(x)>>
GivenT(x) == IF x = "" THEN <<>> ELSE <<RStr(x)>>
AsInt(r) == RFloor(r)
(* templates with disjoint supports: eigenvectors of their Gram matrix; those above the cut *)
KeptTemps(e, w, cut) ==
  LET ar == Areas(Grid(e.grid))
      n  == Len(e.f.temps)
      ts == Eager([p \in 1 .. n |-> RndM(MaskMap(RArr(e.f.temps[p]), w))])
      nn == Eager([p \in 1 .. n |-> Dot(ar, ts[p], ts[p])])
      big == RMaxAbs(nn)
  IN  SelectSeq([p \in 1 .. n |-> p], LAMBDA p : RLe(RMul(cut, big), nn[p]))
Desc(s, e) ==
  LET cut == Resolve(s.d, "tol", GivenT(e.f.tol))
      w == RArr(e.f.m)[1]
  IN  [op |-> "Alm", grid |-> e.grid, maps |-> e.maps, tol |-> "1e-10",
       f |-> [s |-> e.f.s, q |-> e.f.q, m |-> e.f.m, temps |-> e.f.temps, base |-> KeptTemps(e, w, cut), lmax |-> e.f.lmax, lmask |-> e.f.lmask,
              niter |-> AsInt(Resolve(s.d, "nit", GivenI(e.f.niter))), nimask |-> AsInt(Resolve(s.d, "nitm", GivenI(e.f.nimask)))]]
Seen(o, e) ==
  (IF Has(e, "alm") THEN JudgeAlm([op |-> "Alm", grid |-> o.grid, f |-> o.f, maps |-> o.maps, tol |-> o.tol, alm |-> e.alm]) ELSE <<>>)
  \o (IF Has(e, "malm") THEN NearRel("mask_alms", e.malm, M2A(o.grid, 0, o.f.lmask, RArr(o.f.m), o.f.nimask), RStr(o.tol)) ELSE <<>>)
Now(d, e) == Holds("reported", RVecOk(<<e.now[2], e.now[3], e.now[4]>>) /\ e.now[1] = d.sht /\ RStr(e.now[2]) = d.nit /\ RStr(e.now[3]) = d.nitm /\ RStr(e.now[4]) = d.tol, "get_default_params: " \o ToString(e.now))
FlatDesc(s, e) == [d |-> Resolve(s.d, "tol", GivenT(e.tol))]
(* flat sky: maps less the templates (disjoint supports) above the cut *)
JudgeFlatMade(s, e) ==
  LET cut == Resolve(s.d, "tol", GivenT(e.tol))
      w  == Eager(RVec(e.m))
      Wm(x) == Eager([c1 \in 1 .. Len(x) |-> RMulV(RArr(x)[c1], w)])
      mp == Wm(e.maps)
      ts == Eager([p \in 1 .. Len(e.temps) |-> Wm(e.temps[p])])
      D(a, b) == RSum(Eager([c1 \in 1 .. Len(a) |-> RDot(a[c1], b[c1])]))
      nn == Eager([p \in 1 .. Len(ts) |-> D(ts[p], ts[p])])
      big == RMaxAbs(nn)
      kp == SelectSeq([p \in 1 .. Len(ts) |-> p], LAMBDA p : RLe(RMul(cut, big), nn[p]))
      out == Combine(mp, Eager([j \in 1 .. Len(kp) |-> RDiv(D(mp, ts[kp[j]]), nn[kp[j]])]), Eager([j \in 1 .. Len(kp) |-> ts[kp[j]]]))
  IN  Near("maps", e.map, out, RMul(RStr("1e-10"), RMaxAbs(mp)))
PmStart(cs) == [d |-> [FirstDefaults EXCEPT !.tol = RStr("0x1.b7cdfd9d7bdbbp-34")], o |-> [k \in 1 .. cs.nobj |-> <<>>]]
PmDo(s, e) ==
  CASE e.op = "Set" ->
         LET x == IF e.p = "sht" THEN e.x ELSE IF RIsNum(e.x) THEN RStr(e.x) ELSE RInt(-1)
             d == SetTo(s.d, e.p, x)
         IN  [st |-> [s EXCEPT !.d = d],
              bad |-> (IF Accepts(e.p, x) THEN Holds("accepted", e.err = "", e.p \o " = " \o e.x \o ": " \o e.err) ELSE Holds("refused", e.err # "", e.p \o " = " \o e.x \o " was accepted"))]
    [] e.op = "Make" ->
         IF Cannot(s, e.grid) THEN Judge([s EXCEPT !.o[e.k] = <<>>], Holds("refused", e.err # "", "healpy transforms of a rectangular grid"))
         ELSE LET o == Desc(s, e) IN [st |-> [s EXCEPT !.o[e.k] = <<o>>], bad |-> IF e.err # "" THEN Fail("raised", e.err) ELSE Seen(o, e)]
    [] e.op = "Look" ->
         IF s.o[e.k] = <<>> THEN OK(s)
         ELSE Judge(s, IF e.err # "" THEN Holds("raised", Cannot(s, s.o[e.k][1].grid), e.err) ELSE Seen(s.o[e.k][1], e))
    [] e.op = "Bias" ->
         LET x == s.o[e.k][1]
             y == s.o[e.k2][1]
         IN  Judge(s, IF e.err # "" THEN Holds("raised", Cannot(s, x.grid), e.err)
                      ELSE JudgeBias([grid |-> x.grid, f |-> x.f, g |-> y.f, same |-> IF e.k = e.k2 THEN 1 ELSE 0, C |-> e.C, ensemble |-> 0, bias |-> e.bias, tol |-> "1e-9",
                                      nb |-> AsInt(Resolve(s.d, "nit", GivenI(e.niter)))]))
    [] e.op = "NoiseBias" ->
         LET x == s.o[e.k][1]
         IN  Judge(s, IF e.err # "" THEN Holds("raised", Cannot(s, x.grid), e.err)
                      ELSE JudgeNoise([grid |-> x.grid, f |-> x.f, v |-> e.v, ensemble |-> 0, bias |-> e.bias, tol |-> "1e-9", nb |-> AsInt(Resolve(s.d, "nit", GivenI(e.niter)))]))
    [] e.op = "Flat" -> Judge(s, JudgeFlatMade(s, e))
    [] e.op = "Get"  -> OK(s)
    [] e.op = "Other" -> Judge(s, Holds("unaffected", e.same = 1, e.what \o " changed with the defaults"))
    [] e.op = "Both"  -> Judge(s, Near("backends", e.a, RArr(e.b), RMul(RStr("1e-10"), RMaxAbs(RArr(e.b)))))
PmStep(cs, s, e) == LET r == PmDo(s, e) IN [st |-> r.st, bad |-> r.bad \o Now(r.st.d, e)]
=================================================================================
