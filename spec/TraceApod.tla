-------------------------------- MODULE TraceApod --------------------------------
(***************************************************************************)
(* Recorded curved-sky apodisations against module ApodMaps.               *)
(* sc: scale in degrees.  A scale below a quarter of a pixel may be        *)
(* refused.  The disc of a masked pixel (Smooth) certainly contains the    *)
(* pixels whose centres it contains; pixels further than a pixel and a half*)
(* beyond it are certainly outside; in between either will do.             *)
(***************************************************************************)
EXTENDS Conf, ApodMaps

Rad(x)  == RDiv(RMul(x, RPi), RInt(180))
Tiny(e) == RLt(RMul(Rad(RStr(e.sc)), RInt(4 * e.nside)), RInt(1))
Tapered(e) ==
  LET w == Eager(RVec(e.m))
      V == Vecs(Hpx(e.nside))
      want == IF RStr(e.sc) = RInt(0) THEN Eager([k \in 1 .. Len(e.at) |-> w[e.at[k]]]) ELSE ApodSphere(V, w, RCos(Rad(RStr(e.sc))), e.type, e.at)
      got == [k \in 1 .. Len(e.at) |-> e.out[e.at[k]]]
  IN  IF e.err # "" THEN Holds("accepted", Tiny(e), e.why \o ": " \o e.err)
      ELSE Holds("length", Len(e.out) = Len(w), ToString(Len(e.out))) \o Near("apodised", got, want, RMul(RStr(e.tol), RMaxAbs(w)))
           \o Same("input_unchanged", e.after, e.m)
(* every single hole in a mask of ones *)
Holes(e) ==
  LET V == Vecs(Hpx(e.nside))
      n == Len(V)
      all == [j \in 1 .. n |-> j]
      cs == RCos(Rad(RStr(e.sc)))
      ones == [j \in 1 .. n |-> RInt(1)]
      RECURSIVE T(_)
      T(k) == IF k = 0 THEN <<>>
              ELSE T(k - 1) \o Near("apodised", e.out[k], ApodSphere(V, [ones EXCEPT ![e.holes[k]] = RInt(0)], cs, e.type, all), RStr(e.tol))
  IN  IF e.err # "" THEN Holds("accepted", Tiny(e), e.why \o ": " \o e.err) ELSE T(Len(e.holes))
Smooth(e) ==
  LET w == Eager(RVec(e.m))
      G == Hpx(e.nside)
      V == Vecs(G)
      n == Len(w)
      zs == ZeroList(w, n)
      s == Rad(RStr(e.sc))
      rad == RMul(RFrac(5, 2), s)
      slack == RDiv(RFrac(7, 4), RInt(e.nside))
      Cs(r) == IF RLe(RPi, r) THEN RInt(-2) ELSE RCos(r)
      c0 == Cs(rad)
      c1 == Cs(RAdd(rad, slack))
      d == IF Len(zs) = 0 THEN [j \in 1 .. n |-> RInt(4)] ELSE Nearest(V, zs, [j \in 1 .. n |-> j])
      In(j) == RLe(d[j], RSub(RInt(1), c0))
      Near1(j) == ~ In(j) /\ RLe(d[j], RSub(RInt(1), c1))
      base == Eager([j \in 1 .. n |-> IF In(j) \/ Near1(j) THEN RInt(0) ELSE w[j]])
      RECURSIVE Edge(_)
      Edge(j) == IF j = 0 THEN <<>> ELSE IF Near1(j) THEN Append(Edge(j - 1), j) ELSE Edge(j - 1)
      ed == Edge(n)
      B == Basis(G, 0, 3 * e.nside - 1)
      F(x) == RMulV(w, Smoothed(B, x, s, 3))
      t0 == F(base)
      ts == Eager([k \in 1 .. Len(ed) |-> F([j \in 1 .. n |-> IF j = ed[k] THEN w[j] ELSE RInt(0)])])
      out == Eager(RVec(e.out))
      tol == RMul(RStr(e.tol), RMaxAbs(w))
      (* is there a choice for the pixels on the edge that gives the observed map? *)
      RECURSIVE Match(_, _)
      Match(x, k) == IF k = 0 THEN RWithin(out, x, tol) ELSE Match(x, k - 1) \/ Match(RLin(RInt(1), x, RInt(1), ts[k]), k - 1)
  IN  IF e.err # "" THEN Holds("accepted", Tiny(e), e.why \o ": " \o e.err)
      ELSE IF ~ RVecOk(e.out) \/ Len(e.out) # n THEN Fail("smoothed", "not finite")
      ELSE Holds("smoothed", Match(t0, Len(ed)), "no choice of the " \o ToString(Len(ed)) \o " pixels on the edge gives the map; without them " \o RDiff(e.out, t0))
           \o Same("input_unchanged", e.after, e.m)
(* many pixels on the edge, a Gaussian which the multipoles resolve (so smoothing keeps signs): between the maps without and with them *)
Between(e) ==
  LET w == Eager(RVec(e.m))
      V == Vecs(Hpx(e.nside))
      n == Len(w)
      zs == ZeroList(w, n)
      s == Rad(RStr(e.sc))
      rad == RMul(RFrac(5, 2), s)
      slack == RDiv(RFrac(7, 4), RInt(e.nside))
      Cs(r) == IF RLe(RPi, r) THEN RInt(-2) ELSE RCos(r)
      c0 == Cs(rad)
      c1 == Cs(RAdd(rad, slack))
      d == Nearest(V, zs, Eager([j \in 1 .. n |-> j]))
      Out(cc) == Eager([j \in 1 .. n |-> IF RLe(d[j], RSub(RInt(1), cc)) THEN RInt(0) ELSE w[j]])
      B == Basis(Hpx(e.nside), 0, 3 * e.nside - 1)
      lo == Eager(RMulV(w, Smoothed(B, Out(c1), s, 3)))
      hi == Eager(RMulV(w, Smoothed(B, Out(c0), s, 3)))
      out == Eager(RVec(e.out))
      tol == RMul(RStr(e.tol), RMaxAbs(w))
      bad == SelectSeq([j \in 1 .. n |-> j], LAMBDA j : RLt(out[j], RSub(lo[j], tol)) \/ RLt(RAdd(hi[j], tol), out[j]))
  IN  IF e.err # "" \/ ~ RVecOk(e.out) \/ Len(e.out) # n THEN Fail("smoothed", e.err)
      ELSE Holds("smoothed", Len(bad) = 0, "pixel " \o ToString(Head(bad) - 1) \o ": " \o RShow(out[Head(bad)]) \o " not between " \o RShow(lo[Head(bad)]) \o " and " \o RShow(hi[Head(bad)]))
           \o Same("input_unchanged", e.after, e.m)
AStart(cs) == 0
AStep(cs, s, e) ==
  CASE e.op = "Taper"  -> Judge(s, Tapered(e))
    [] e.op = "Holes"  -> Judge(s, Holes(e))
    [] e.op = "Smooth" -> Judge(s, Smooth(e))
    [] e.op = "Between" -> Judge(s, Between(e))
    [] e.op = "Refuse" -> Judge(s, Holds("refused", e.err # "", e.why \o " was accepted") \o Same("input_unchanged", e.after, e.m))
==================================================================================
