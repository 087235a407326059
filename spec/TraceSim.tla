-------------------------------- MODULE TraceSim --------------------------------
(***************************************************************************)
(* Recorded curved-sky simulations against modules Sim and Sphere.         *)
(* A case: the same seed throughout.  Unit: spectra of independent         *)
(* components of unit power, on a grid whose quadrature is exact, give the *)
(* numbers g.  Mixed: other spectra on such a grid give the coefficients   *)
(* a.  Maps: any grid, perhaps with beams, must then show a.               *)
(***************************************************************************)
EXTENDS Conf, Sphere, Sim

Grid(g) == IF g.kind = "hpx" THEN Hpx(g.nside) ELSE Car(g.N, g.j0, g.n, g.M, g.m, RStr(g.q))
RArr(x) == Eager([c1 \in 1 .. Len(x) |-> Eager(RVec(x[c1]))])
Pick(x, f, k) == [j \in 1 .. k |-> x[f + j - 1]]
NOf(sp) == IF sp = 0 THEN 1 ELSE 2
(* multipoles of all components, by exact quadrature *)
Analyse(e) ==
  LET G  == Grid(e.grid)
      ms == RArr(e.maps)
      RECURSIVE A(_)
      A(f) == IF f = 0 THEN <<>> ELSE A(f - 1) \o Quadrature(Basis(G, e.spins[f], e.lmax), Pick(ms, FirstOf(e.spins, f), NOf(e.spins[f])))
  IN  RndA(A(Len(e.spins)))
Render(e, al) ==
  LET G  == Grid(e.grid)
      RECURSIVE A(_)
      A(f) == IF f = 0 THEN <<>> ELSE A(f - 1) \o Alm2Map(Basis(G, e.spins[f], e.lmax), Pick(al, FirstOf(e.spins, f), NOf(e.spins[f])))
  IN  A(Len(e.spins))
LOf(lmax) == LET q == LMs(lmax) IN Eager([j \in 1 .. Len(q) |-> q[j][1]])
MOf(lmax) == LET q == LMs(lmax) IN Eager([j \in 1 .. Len(q) |-> q[j][2]])
Coef(al, j) == Eager([x \in 1 .. Len(al) |-> <<al[x][1][j], al[x][2][j]>>])
One(k) == [x \in 1 .. k |-> [y \in 1 .. k |-> RInt(IF x = y THEN 1 ELSE 0)]]
Shape(e) == Holds("number_of_maps", Len(e.maps) = NCompOf(e.spins), ToString(Len(e.maps)))
            \o Holds("finite", \A x \in 1 .. Len(e.maps) : RVecOk(e.maps[x]), "not finite")
(* multipoles below the spin of a field do not exist *)
Lowest(e, x) == e.spins[FieldAt(e.spins, x)]
(* total power, real degrees of freedom *)
Power(e, g, x, y) ==
  LET ms == MOf(e.lmax)
      ls == LOf(e.lmax)
      T(j) == IF ls[j] < Lowest(e, x) \/ ls[j] < Lowest(e, y) THEN RInt(0)
              ELSE RMul(RInt(IF ms[j] = 0 THEN 1 ELSE 2), RAdd(RMul(g[x][1][j], g[y][1][j]), RMul(g[x][2][j], g[y][2][j])))
  IN  RSum(Eager([j \in 1 .. Len(ms) |-> T(j)]))
Dof(e, x, y) == LET lo == Max2(Lowest(e, x), Lowest(e, y)) IN (e.lmax + 1) * (e.lmax + 1) - lo * lo
Six(d, v) == RSqrt(RInt(36 * v * d))
JudgeUnit(e, g) ==
  LET k == Len(g) IN
  Holds("unit_power", \A x \in 1 .. k : LET d == Dof(e, x, x) IN RLe(RAbs(RSub(Power(e, g, x, x), RInt(d))), Six(d, 2)), "variance of the numbers drawn is not 1: " \o ToString([x \in 1 .. k |-> <<RShow(Power(e, g, x, x)), Dof(e, x, x)>>]))
  \o Holds("independent", \A x \in 1 .. k : \A y \in x + 1 .. k : RLe(RAbs(Power(e, g, x, y)), Six(Dof(e, x, y), 1)), "components of independent fields are correlated")
JudgeMixed(e, g, a) ==
  LET nc == Len(a)
      cl == RArr(e.cls)
      C(l) == CovOf(nc, LAMBDA p : cl[p][l + 1])
      ls == LOf(e.lmax)
      big == RAdd(RMaxAbs([x \in 1 .. nc |-> RMaxAbs(a[x][1])]), RStr("1e-300"))
      tol == RMul(RStr(e.tol), big)
      Low(l, x) == l < Lowest(e, x)
      Js(l) == SelectSeq([j \in 1 .. Len(ls) |-> j], LAMBDA j : ls[j] = l)
      AtL(l) ==
        LET CC == C(l)
            js == Js(l)
            k == Powered(CC)
            none == SelectSeq([x \in 1 .. nc |-> x], LAMBDA x : CC[x][x] = RInt(0))
            S == SubOf(CC, k)
            iS == RInv(S)
            all == \A x \in 1 .. nc : ~ Low(l, x)
            Zero == \A x \in 1 .. Len(none) : \A j \in 1 .. Len(js) : RLe(RAbs(a[none[x]][1][js[j]]), tol) /\ RLe(RAbs(a[none[x]][2][js[j]]), tol)
            Sized(j) == LET u == Coef(a, j)
                            v == Coef(g, j)
                            want == SizeIn(One(Len(k)), [x \in 1 .. Len(k) |-> v[k[x]]])
                            got == SizeIn(iS, [x \in 1 .. Len(k) |-> u[k[x]]])
                        IN  RLe(RAbs(RSub(got, want)), RMul(RStr(e.rel), RAdd(want, RInt(1))))
        IN  Holds("no_power", Zero, "power at l = " \o ToString(l) \o " where the spectra vanish")
            \o (IF ~ all \/ Len(k) = 0 THEN <<>> ELSE Holds("covariance", \A j \in 1 .. Len(js) : Sized(js[j]), "multipoles at l = " \o ToString(l) \o " do not have the covariance of the spectra"))
      RECURSIVE T(_)
      T(l) == IF l < 0 THEN <<>> ELSE T(l - 1) \o AtL(l)
  IN  T(e.lmax)
(* Mixed spectra of components some of which have no power draw the same numbers as Unit: g of all components is known *)
Beamed(e, a) ==
  IF Len(e.beam) = 0 THEN a
  ELSE LET b == RArr(e.beam)
           ls == LOf(e.lmax)
           F(x, v) == LET f == FieldAt(e.spins, x) IN Eager([j \in 1 .. Len(v) |-> RRound(RMul(b[f][ls[j] + 1], v[j]))])
       IN  Eager([x \in 1 .. Len(a) |-> <<F(x, a[x][1]), F(x, a[x][2])>>])
(* the same band limit however it is given, and the same numbers *)
JudgeMaps(e, a) ==
  LET w == Eager(Render(e, Beamed(e, a)))
      big == RMaxAbs([x \in 1 .. Len(w) |-> RMaxAbs(w[x])])
  IN  Near("maps", e.maps, w, RMul(RStr(e.tol), RAdd(big, RStr("1e-300"))))
SmStart(cs) == [g |-> <<>>, a |-> <<>>]
SmStep(cs, s, e) ==
  CASE e.op = "Unit"   -> IF Shape(e) # <<>> THEN Judge(s, Shape(e)) ELSE LET g == Analyse(e) IN [st |-> [s EXCEPT !.g = g], bad |-> JudgeUnit(e, g) \o JudgeMaps(e, g)]
    [] e.op = "Mixed"  -> IF Shape(e) # <<>> \/ s.g = <<>> THEN Judge(s, Shape(e)) ELSE LET a == Analyse(e) IN [st |-> [s EXCEPT !.a = a], bad |-> JudgeMixed(e, s.g, a) \o JudgeMaps(e, a)]
    [] e.op = "Maps"   -> Judge(s, IF Shape(e) # <<>> \/ s.a = <<>> THEN Shape(e) ELSE JudgeMaps(e, s.a))
    [] e.op = "Differ" -> Judge(s, Holds("different_seeds", e.same = 0, e.why \o ": the same maps"))
    [] e.op = "Kept"   -> Judge(s, Holds("input_unchanged", e.kept = 1, "spectra or beams were modified"))
    [] e.op = "Refuse" -> Judge(s, Holds("refused", e.err # "", e.why \o " was accepted"))
=================================================================================
