------------------------------ MODULE TraceSimFlat ------------------------------
(***************************************************************************)
(* Recorded flat-sky simulations against modules Sim and Flat.             *)
(* A case: the same seed throughout.  Unit: spectra of independent         *)
(* components of unit power give the numbers g, mode by mode.  Mixed:      *)
(* other spectra give the modes a.  Maps: again, perhaps with beams or     *)
(* scaled spectra, the same modes a.  Many: unit power, many seeds.        *)
(* Modes at the largest kx of an even number of columns, and the mode at   *)
(* the largest ky with kx = 0, are their own mirror images; nothing is     *)
(* said of their power.                                                    *)
(***************************************************************************)
EXTENDS Conf, Flat, Sim

G0(e)   == Patch(e.nx, e.ny, RStr(e.lx), RStr(e.ly))
RArr(x) == Eager([c1 \in 1 .. Len(x) |-> Eager(RVec(x[c1]))])
Pick(x, f, k) == [j \in 1 .. k |-> x[f + j - 1]]
NOf(sp) == IF sp = 0 THEN 1 ELSE 2
Split(spins, F(_, _)) ==
  LET RECURSIVE A(_)
      A(f) == IF f = 0 THEN <<>> ELSE A(f - 1) \o F(f, FirstOf(spins, f))
  IN  Eager(A(Len(spins)))
Analyse(G, spins, maps) == Split(spins, LAMBDA f, x : Fwd(G, spins[f], Pick(maps, x, NOf(spins[f]))))
Render(G, spins, al)    == Split(spins, LAMBDA f, x : Inv(G, spins[f], Pick(al, x, NOf(spins[f]))))
(* one of every pair of opposite modes *)
Interior(G) == SelectSeq(Eager([j \in 1 .. G.n |-> j]),
                 LAMBDA j : LET x == (j - 1) % G.nx
                                y == (j - 1) \div G.nx
                            IN  (x > 0 /\ 2 * x < G.nx) \/ (x = 0 /\ y > 0 /\ 2 * y < G.ny))
(* E and B of the uniform mode of an odd spin would be imaginary: there is none *)
Uniform(spins) == IF \E f \in 1 .. Len(spins) : (spins[f] % 2) = 1 THEN <<>> ELSE <<1>>
(* |mode|^2 of unit power *)
Norm2(G) == RDiv(RMul(G.lx, G.ly), RMul(TwoPi, TwoPi))
Square(z) == RAdd(RMul(z[1], z[1]), RMul(z[2], z[2]))
One(k) == Eager([x \in 1 .. k |-> Eager([y \in 1 .. k |-> RInt(IF x = y THEN 1 ELSE 0)])])
Shape(e) == Holds("number_of_maps", Len(e.maps) = NCompOf(e.spins) /\ e.shape = <<e.ny, e.nx>>, ToString(<<Len(e.maps), e.shape>>))
            \o Holds("finite", \A x \in 1 .. Len(e.maps) : RVecOk(e.maps[x]), "not finite")
Six(v) == RMul(RInt(6), RSqrt(v))
JudgeUnit(G, g) ==
  LET k == Len(g)
      js == Interior(G)
      d == RInt(Len(js))
      P(x) == RDiv(RSum(Eager([z \in 1 .. Len(js) |-> Square(g[x][js[z]])])), Norm2(G))
      X(x, y) == RDiv(RSum(Eager([z \in 1 .. Len(js) |-> ReProd(g[x][js[z]], g[y][js[z]])])), Norm2(G))
  IN  Holds("unit_power", \A x \in 1 .. k : RLe(RAbs(RSub(P(x), d)), RAdd(RInt(6), Six(d))), "power " \o ToString([x \in 1 .. k |-> RShow(P(x))]) \o " of " \o ToString(Len(js)) \o " modes of unit power")
      \o Holds("independent", \A x \in 1 .. k : \A y \in x + 1 .. k : RLe(RAbs(X(x, y)), RAdd(RInt(6), Six(d))), "components of independent fields are correlated")
JudgeMixed(e, G, g, a) ==
  LET nc == Len(a)
      cl == RArr(e.cls)
      ll == Eager([x \in 1 .. Len(cl[1]) |-> RInt(x - 1)])
      cm == Eager([p \in 1 .. Len(cl) |-> AtModes(G, ll, cl[p])])
      js == Uniform(e.spins) \o Interior(G)
      big == RSqrt(RMul(Norm2(G), RMaxAbs([p \in 1 .. Len(cl) |-> RMaxAbs(cl[p])])))
      tol == RMul(RStr(e.tol), big)
      Small(z) == RLe(Square(z), RMul(tol, tol))
      tw == RArr(e.twin)
      At(j) ==
        LET CC == CovOf(nc, LAMBDA p : cm[p][j])
            k == Powered(CC)
            iS == RInv(SubOf(CC, k))
            want == SizeIn(One(Len(k)), [x \in 1 .. Len(k) |-> g[k[x]][j]])
            got == SizeIn(iS, [x \in 1 .. Len(k) |-> a[k[x]][j]])
        IN  Holds("no_power", \A x \in 1 .. nc : CC[x][x] # RInt(0) \/ Small(a[x][j]), "power at mode " \o ToString(j) \o " where the spectra vanish")
            \o (IF e.reg = 0 \/ Len(k) = 0 THEN <<>> ELSE Holds("covariance", RLe(RAbs(RSub(got, want)), RMul(RStr(e.rel), RAdd(want, Norm2(G)))), "mode " \o ToString(j) \o " does not have the covariance of the spectra"))
            \o Holds("perfect_correlation", \A t \in 1 .. Len(tw) : Small(CScl(RStr("0.1"), CSumSeq(Eager([x \in 1 .. nc |-> CScl(tw[t][x], a[x][j])])))), "mode " \o ToString(j) \o " of fields perfectly correlated")
      RECURSIVE T(_)
      T(z) == IF z = 0 THEN <<>> ELSE T(z - 1) \o At(js[z])
  IN  T(Len(js))
Beamed(e, G, a) ==
  IF Len(e.beam) = 0 THEN a
  ELSE LET b  == RArr(e.beam)
           ll == Eager([x \in 1 .. Len(b[1]) |-> RInt(x - 1)])
           bm == Eager([f \in 1 .. Len(b) |-> AtModes(G, ll, b[f])])
       IN  Eager([x \in 1 .. Len(a) |-> LET f == FieldAt(e.spins, x) IN Eager([j \in 1 .. G.n |-> CRnd(CScl(bm[f][j], a[x][j]))])])
(* the modes of the maps: all but those at the largest kx, where E and B of a mode and of its mirror image mix *)
JudgeMaps(e, G, a) ==
  LET w == Beamed(e, G, a)
      o == Analyse(G, e.spins, RArr(e.maps))
      js == Uniform(e.spins) \o Interior(G)
      by == RStr(e.by)
      big == RMul(by, RAdd(RMaxAbs(Eager([x \in 1 .. Len(w) |-> RMaxAbs(Eager([j \in 1 .. 2 * G.n |-> w[x][((j - 1) \div 2) + 1][((j - 1) % 2) + 1]]))])), RStr("1e-300")))
      tol == RMul(RStr(e.tol), big)
      Off(x, j, h) == ~ RLe(RAbs(RSub(o[x][j][h], RMul(by, w[x][j][h]))), tol)
      wrong == SelectSeq(js, LAMBDA j : \E x \in 1 .. Len(w) : Off(x, j, 1) \/ Off(x, j, 2))
  IN  Holds("maps", wrong = <<>>, (IF "why" \in DOMAIN e THEN e.why ELSE "") \o ": modes " \o ToString(wrong))
(* Many: every mode has unit power on average over seeds, and two modes are independent *)
JudgeMany(e) ==
  LET G == G0(e)
      r == Eager([t \in 1 .. Len(e.runs) |-> Analyse(G, e.spins, RArr(e.runs[t]))])
      n == Len(r)
      nc == NCompOf(e.spins)
      js == <<1>> \o Interior(G)
      N == nc * Len(js)
      V(t) == Eager([z \in 1 .. 2 * N |-> LET q == (z - 1) \div 2 IN r[t][(q \div Len(js)) + 1][js[(q % Len(js)) + 1]][((z - 1) % 2) + 1]])
      U == Eager([t \in 1 .. n |-> V(t)])
      col == Eager([z \in 1 .. 2 * N |-> Eager([t \in 1 .. n |-> U[t][z]])])
      X(z1, z2) == RDiv(RDot(col[z1], col[z2]), RMul(Norm2(G), RInt(n)))
      (* the real and imaginary parts share the power, but the uniform mode is real *)
      Want(z) == LET q == (z - 1) \div 2 IN IF (q % Len(js)) = 0 THEN (IF (z % 2) = 1 THEN RInt(1) ELSE RInt(0)) ELSE Half0
      Spread(z1, z2) == RMul(RInt(6), RSqrt(RDiv(RMul(RMul(Want(z1), Want(z2)), RInt(IF z1 = z2 THEN 2 ELSE 1)), RInt(n))))
      badP == SelectSeq([z \in 1 .. 2 * N |-> z], LAMBDA z : ~ RLe(RAbs(RSub(X(z, z), Want(z))), RAdd(Spread(z, z), RStr("1e-20"))))
      badX == {z \in (1 .. 2 * N) \X (1 .. 2 * N) : z[1] < z[2] /\ ~ RLe(RAbs(X(z[1], z[2])), RAdd(Spread(z[1], z[2]), RStr("1e-20")))}
  IN  Holds("mode_power", badP = <<>>, "mean power over " \o ToString(n) \o " seeds: " \o ToString([z \in 1 .. Len(badP) |-> <<badP[z], RShow(X(badP[z], badP[z])), RShow(Want(badP[z]))>>]))
      \o Holds("modes_independent", badX = {}, ToString(badX))
SfStart(cs) == [g |-> <<>>, a |-> <<>>]
SfStep(cs, s, e) ==
  CASE e.op = "Unit"   -> IF Shape(e) # <<>> THEN Judge(s, Shape(e)) ELSE LET g == Analyse(G0(e), e.spins, RArr(e.maps)) IN [st |-> [s EXCEPT !.g = g], bad |-> JudgeUnit(G0(e), g)]
    [] e.op = "Mixed"  -> IF Shape(e) # <<>> \/ s.g = <<>> THEN Judge(s, Shape(e)) ELSE LET a == Analyse(G0(e), e.spins, RArr(e.maps)) IN [st |-> [s EXCEPT !.a = a], bad |-> JudgeMixed(e, G0(e), s.g, a)]
    [] e.op = "Maps"   -> Judge(s, IF Shape(e) # <<>> \/ s.a = <<>> THEN Shape(e) ELSE JudgeMaps(e, G0(e), s.a))
    [] e.op = "Many"   -> Judge(s, JudgeMany(e))
    [] e.op = "Differ" -> Judge(s, Holds("different_seeds", e.same = 0, e.why \o ": the same maps"))
    [] e.op = "Kept"   -> Judge(s, Holds("input_unchanged", e.kept = 1, "spectra or beams were modified"))
    [] e.op = "Refuse" -> Judge(s, Holds("refused", e.err # "", e.why \o " was accepted"))
=================================================================================
