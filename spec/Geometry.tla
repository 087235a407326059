--------------------------------- MODULE Geometry ---------------------------------
(***************************************************************************)
(* Rectangular pixelisations as their headers describe them.  A request    *)
(*   N, M       180/|step in dec|, 360/|step in ra|                        *)
(*   sx, sy     signs of the steps                                         *)
(*   crx2, cry2 twice the (1-based) reference pixel                        *)
(*   ra0        right ascension there, in steps of 1/4 degree              *)
(*   ny, nx     shape                                                      *)
(*   bad        "" or a way in which it is not such a pixelisation         *)
(***************************************************************************)
EXTENDS Sphere

(* colatitude of row i is pi Row / N *)
Row(w, i)     == (w.N - (2 * i - w.cry2) * w.sy) \div 2
OnRings(w)    == ((w.N - (2 - w.cry2) * w.sy) % 2) = 0
TopRow(w)     == Min2(Row(w, 1), Row(w, w.ny))
LowRow(w)     == IF Row(w, 1) > Row(w, w.ny) THEN Row(w, 1) ELSE Row(w, w.ny)
(* right ascension of column i, as a fraction <<a, b>> of pi, in [0, 2) *)
ColNum(w, i)  == w.ra0 * w.M + (2 * i - w.crx2) * w.sx * 720       \* times pi / (720 M)
ColLon(w, i)  == ColNum(w, i) % (1440 * w.M)
FirstCol(w)   == IF w.sx > 0 THEN 1 ELSE w.nx
(* the native range of the projection *)
InRange(w, i) == Abs2(2 * i - w.crx2) <= w.M
OnSphere(w)   == TopRow(w) >= 0 /\ LowRow(w) <= w.N /\ w.nx <= w.M
Valid(w)      == w.bad = "" /\ OnSphere(w)
(* a map whose reference pixel is more than half a turn away from its columns may be refused *)
Certain(w)    == InRange(w, 1) /\ InRange(w, w.nx)
DefaultLmax(w) == IF 2 * w.N >= w.M THEN w.N ELSE w.M \div 2
SkyGrid(w)    == [N |-> w.N, j0 |-> TopRow(w), n |-> w.ny, M |-> w.M, m |-> w.nx, lon |-> <<ColLon(w, FirstCol(w)), 720 * w.M>>]
SameSky(a, b) == SkyGrid(a) = SkyGrid(b)
(* stored position (1-based row-major) of the pixel at row r, column k of the sky grid: north to south, eastwards *)
Stored(w, r, k) == (IF w.sy > 0 THEN w.ny - r ELSE r - 1) * w.nx + (IF w.sx < 0 THEN w.nx - k + 1 ELSE k)
Reform(w)     == [x \in 1 .. w.ny * w.nx |-> Stored(w, ((x - 1) \div w.nx) + 1, ((x - 1) % w.nx) + 1)]
(* the same pixels described otherwise *)
FlipRows(w)   == [w EXCEPT !.sy = -@, !.cry2 = 2 * (w.ny + 1) - @]
FlipCols(w)   == [w EXCEPT !.sx = -@, !.crx2 = 2 * (w.nx + 1) - @]
Shift(w, k)   == [w EXCEPT !.crx2 = @ + 2 * k, !.ra0 = @ + (k * w.sx * 1440) \div w.M]     \* when M divides 1440 k
===================================================================================
