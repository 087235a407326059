------------------------------ MODULE TraceBinsFlat ------------------------------
EXTENDS Conf, BinsFlat
FStart(cs) == [l0 |-> RVec(cs.l0), lf |-> RVec(cs.lf)]
Tiny == RStr("1e-12")
FStep(cs, s, e) ==
  CASE e.op = "About" -> Judge(s, Same("n_bands", e.nb, Len(s.l0)) \o NearRel("centres", e.leff, Centres(s), Tiny))
    [] e.op = "Unbin" -> LET bp == RMat(e.bp) ls == RVec(e.ls) IN
                         Judge(s, Near("unbin_is_the_containing_band", e.out, Eager([j \in 1 .. Len(bp) |-> Unbin(s, bp[j], ls)]), RInt(0))
                                  \o Same("input_unchanged", e.after, e.bp))
    [] e.op = "Bin"   -> LET cl == RMat(e.cl) ls == RVec(e.ls) IN
                         Judge(s, Near("bin_is_the_interpolated_centre", e.out, Eager([j \in 1 .. Len(cl) |-> BinFlat(s, ls, cl[j])]), RMul(Tiny, RMaxAbs(cl)))
                                  \o Same("input_unchanged", e.after, e.cl))
================================================================================
