------------------------------ MODULE TraceApodFlat ------------------------------
(***************************************************************************)
(* Recorded flat-sky apodisations against module ApodFlatMaps.             *)
(* sc: scale in degrees, a patch of nx by ny pixels on lx by ly radians.   *)
(***************************************************************************)
EXTENDS Conf, ApodFlatMaps

RadF(x) == RDiv(RMul(x, RPi), RInt(180))
Expected(e, w) ==
  IF RStr(e.sc) = RInt(0) THEN w
  ELSE ApodF(Patch(e.nx, e.ny, RStr(e.lx), RStr(e.ly)), w, RadF(RStr(e.sc)), e.type)
TaperedF(e) ==
  LET w == Eager(RVec(e.m))
      want == Eager(Expected(e, w))
  IN  Holds("shape", e.shape = <<e.ny, e.nx>>, ToString(e.shape))
      \o Near("apodised", e.out, want, RMul(RStr(e.tol), RMaxAbs(w)))
      \o Same("input_unchanged", e.after, e.m)
(* the same mask, transposed, on the transposed patch; out: both results, pixel (x, y) of the second at (y, x) *)
SwappedF(e) == Near("transposed", e.out[2], Eager(RVec(e.out[1])), RMul(RStr(e.tol), RMaxAbs(RVec(e.m))))
AStart(cs) == 0
AStep(cs, s, e) ==
  CASE e.op = "Taper"     -> Judge(s, TaperedF(e))
    [] e.op = "Transpose" -> Judge(s, SwappedF(e))
    [] e.op = "Refuse"    -> Judge(s, Holds("refused", e.err # "", e.why \o " was accepted") \o Same("input_unchanged", e.after, e.m))
==================================================================================
