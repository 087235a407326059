---------------------------------- MODULE MCApod ----------------------------------
(***************************************************************************)
(* Masks into which pixels are punched one after the other, on a flat      *)
(* patch of NX x NY pixels and on the 12 pixels of the coarsest HEALPix    *)
(* map, and their apodised versions.                                       *)
(***************************************************************************)
EXTENDS ApodFlatMaps, ApodMaps, TLC
CONSTANTS NX, NY, MaxHoles
VARIABLES v_holes, v_type, v_scale, ready
vars == <<v_holes, v_type, v_scale, ready>>

G0   == Patch(NX, NY, RFrac(NX, 7), RFrac(2 * NY, 9))
VV   == Vecs(Hpx(1))
NPx  == NX * NY
(* scales: below the distance of two neighbours, in between, and beyond the patch *)
FlatScales == <<RFrac(1, 9), RFrac(1, 3), RFrac(2, 3)>>
(* their cosines on the sphere *)
CosScales  == <<RFrac(9, 10), RFrac(1, 9), RFrac(-3, 4)>>
Value(j) == RFrac(1 + (j * j % 5), 3)
MaskOf(H, n) == Eager([j \in 1 .. n |-> IF j \in H THEN RInt(0) ELSE Value(j)])
Flats(H, t, sc)  == ApodFlat(NX, PixX(G0), PixY(G0), MaskOf(H, NPx), FlatScales[sc], t)
Spheres(H, t, sc) == ApodSphere(VV, MaskOf(H, 12), CosScales[sc], t, [j \in 1 .. 12 |-> j])

Init == v_holes = {} /\ v_type = "C1" /\ v_scale = 1 /\ ready = FALSE
Choose == ~ ready /\ v_type' \in {"C1", "C2"} /\ v_scale' \in 1 .. 3 /\ ready' = TRUE /\ UNCHANGED v_holes
Punch == ready /\ \E j \in 1 .. (IF NPx > 12 THEN NPx ELSE 12) : j \notin v_holes /\ Cardinality(v_holes) < MaxHoles /\ v_holes' = v_holes \cup {j} /\ UNCHANGED <<v_type, v_scale, ready>>
Next == Choose \/ Punch
Spec == Init /\ [][Next]_vars

AF == Flats(v_holes, v_type, v_scale)
AS == Spheres(v_holes, v_type, v_scale)
InRange(a, m) == \A j \in 1 .. Len(a) : RLe(RInt(0), a[j]) /\ RLe(a[j], m[j])
Bounded == ready => InRange(AF, MaskOf(v_holes, NPx)) /\ InRange(AS, MaskOf(v_holes, 12))
(* the nearest zero decides: the least of the tapers towards every zero *)
Eps == RStr("1e-35")
TapTab == Eager([t \in {"C1", "C2"} |-> Eager([sc \in 1 .. 3 |-> Eager([z \in 1 .. NPx |->
            LET d == NearestFlat(NX, PixX(G0), PixY(G0), <<z>>, NPx) IN Eager([j \in 1 .. NPx |-> RMul(Value(j), Taper(t, RDiv(RSqrt(d[j]), FlatScales[sc])))])])])])
Least == (ready /\ v_holes \cap 1 .. NPx # {}) =>
  LET a == AF
      T == TapTab[v_type][v_scale]
  IN  \A j \in 1 .. NPx : (\A z \in v_holes \cap 1 .. NPx : RLe(a[j], RAdd(Eps, T[z][j]))) /\ \E z \in v_holes \cap 1 .. NPx : RLe(RAbs(RSub(a[j], T[z][j])), Eps)
(* a transposed patch gives the transposed mask *)
GT   == Patch(NY, NX, G0.ly, G0.lx)
Tr(j) == ((j - 1) % NX) * NY + ((j - 1) \div NX) + 1
Transposed == ready => LET b == ApodFlat(NY, PixX(GT), PixY(GT), [q \in 1 .. NPx |-> MaskOf(v_holes, NPx)[CHOOSE j \in 1 .. NPx : Tr(j) = q]], FlatScales[v_scale], v_type)
                           a == AF
                       IN  \A j \in 1 .. NPx : b[Tr(j)] = a[j]
(* a quarter of a turn of the sphere *)
Quarter(j) == 4 * ((j - 1) \div 4) + (j % 4) + 1
Turned == ready => LET m == MaskOf(v_holes, 12)
                       b == ApodSphere(VV, [q \in 1 .. 12 |-> m[CHOOSE j \in 1 .. 12 : Quarter(j) = q]], CosScales[v_scale], v_type, [j \in 1 .. 12 |-> j])
                       a == AS
                   IN  \A j \in 1 .. 12 : RLe(RAbs(RSub(b[Quarter(j)], a[j])), Eps)
(* smoothing keeps the mean; nothing to cut and no structure: nothing changes *)
MeanKept == ready => LET m == CutFlat(NX, PixX(G0), PixY(G0), MaskOf(v_holes, NPx), RMul(RFrac(2, 5), FlatScales[v_scale]))
                     IN  RLe(RAbs(RSub(RSum(SmoothedF(G0, m, FlatScales[v_scale])), RSum(m))), Eps)
Ones     == [j \in 1 .. NPx |-> RInt(1)]
Uniform  == (ready /\ v_holes = {}) => RWithin(SmoothedF(G0, Ones, FlatScales[v_scale]), Ones, Eps)
(* punching only lowers *)
Lower == ready => LET a == AF
                      x == AS
                  IN  \A z \in v_holes : LET b == Flats(v_holes \ {z}, v_type, v_scale)
                                              y == Spheres(v_holes \ {z}, v_type, v_scale)
                                          IN  (\A j \in 1 .. NPx : RLe(a[j], RAdd(Eps, b[j]))) /\ (\A j \in 1 .. 12 : RLe(x[j], RAdd(Eps, y[j])))
(* the tapers rise from 0 to 1 *)
Steps == [k \in 1 .. 21 |-> RFrac(k - 1, 20)]
ASSUME \A t \in {"C1", "C2"} : Taper(t, RInt(0)) = RInt(0) /\ Taper(t, RInt(1)) = RInt(1) /\ \A k \in 1 .. 20 : RLt(Taper(t, Steps[k]), Taper(t, Steps[k + 1]))
ASSUME RLe(RAbs(RSub(RExp(RInt(-3)), RStr("0.049787068367863942979342415650061776631699592188423"))), RStr("1e-30"))
==================================================================================
