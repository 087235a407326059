------------------------------ MODULE TraceGeometry ------------------------------
(* Recorded interpretations of map headers against module Geometry. *)
EXTENDS Conf, Geometry

GStart(cs) == 0
Req(e) == e.w
JudgeInfo(e) ==
  LET w == e.w
  IN  IF ~Valid(w) THEN Holds("refused", e.err # "", "not a valid pixelisation: " \o w.bad)
      ELSE IF e.err # "" THEN Holds("accepted", ~Certain(w), e.err)
      ELSE Same("npix", e.npix, w.nx * w.ny) \o Same("lmax", e.lmax, DefaultLmax(w))
           \o (IF Len(e.perm) > 0 THEN Same("reformed_map", e.perm, Reform(w)) ELSE <<>>)
           \o (IF Len(e.some) > 0 THEN Same("reformed_pixels", e.some, [j \in 1 .. Len(e.at) |-> Stored(w, ((e.at[j] - 1) \div w.nx) + 1, ((e.at[j] - 1) % w.nx) + 1)]) ELSE <<>>)
(* several descriptions: which are told apart *)
JudgeEq(e) == Same("equality", e.eq, [a \in 1 .. Len(e.ws) |-> [b \in 1 .. Len(e.ws) |-> IF SameSky(e.ws[a], e.ws[b]) THEN 1 ELSE 0]])
              \o Same("inequality", e.ne, [a \in 1 .. Len(e.ws) |-> [b \in 1 .. Len(e.ws) |-> IF SameSky(e.ws[a], e.ws[b]) THEN 0 ELSE 1]])
(* multipoles of a map with one non-zero pixel, given by its stored row and column *)
Unit(w, y, x, s, l, m) ==
  LET t == Row(w, y)
      q == RFrac(ColLon(w, x), 720 * w.M)
      z == RMul(q, RInt(m))
  IN  CScl(SLambda(s, l, m, RCosPi(RFrac(t, 2 * w.N)), RSinPi(RFrac(t, 2 * w.N))), <<RCosPi(z), RSinPi(z)>>)
JudgeGQ(e) ==
  LET w  == e.w
      s  == e.s
      wt == RDiv(CCWeight(w.N, Row(w, e.at[1])), RInt(w.M))
      v  == IF s = 0 THEN <<RStr(e.v[1]), RInt(0)>> ELSE <<RStr(e.v[1]), RStr(e.v[2])>>
      A(l, m) == CScl(wt, CMul(v, CConj(Unit(w, e.at[1], e.at[2], s, l, m))))
      E(l, m) == IF s = 0 THEN A(l, m) ELSE CScl(RFrac(-1, 2), CAdd(A(l, m), CScl(RInt(Sgn1(m)), CConj(A(l, -m)))))
      Bm(l, m) == CScl(Half, CMul(CI, CSub(A(l, m), CScl(RInt(Sgn1(m)), CConj(A(l, -m))))))
      V(q) == IF s = 0 THEN <<E(q[1], q[2])>> ELSE <<E(q[1], q[2]), Bm(q[1], q[2])>>
  IN  Near("multipoles_of_a_pixel", e.vals, Eager([j \in 1 .. Len(e.lms) |-> V(e.lms[j])]), RMul(RMul(RStr("1e-9"), wt), RInt(e.lmax + 1)))
GStep(cs, s, e) ==
  CASE e.op = "Info"    -> Judge(s, JudgeInfo(e))
    [] e.op = "Eq"      -> Judge(s, JudgeEq(e))
    [] e.op = "GQ"      -> Judge(s, JudgeGQ(e))
    [] e.op = "Refused" -> Judge(s, Holds("refused", e.err # "", e.call))
    [] e.op = "Flag"    -> Judge(s, Same(e.name, e.obs, e.exp))
==================================================================================
