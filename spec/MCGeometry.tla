-------------------------------- MODULE MCGeometry --------------------------------
(* Every small request: descriptions of the same pixels agree in everything, and the geometry is that of the sky. *)
EXTENDS Geometry, TLC, Json
CONSTANTS Ns, Ms, Emit, Mutant
VARIABLES w
Reqs == {r \in [N : Ns, M : Ms, sx : {-1, 1}, sy : {-1, 1}, crx2 : {2, 5, 6}, cry2 : {-2, 1, 2, 3, 4, 5, 6}, ra0 : {0, 360, 1439}, ny : 1 .. 4, nx : {1, 3, 6}, bad : {""}] :
          OnRings(r) /\ r.ny <= r.N + 2}
Init == w \in Reqs /\ (Emit => PrintT("@@BEH|" \o ToJson(w)))
Next == UNCHANGED w
Spec == Init /\ [][Next]_w
SkyReform(a) == Reform(a)
Mirror(a, b) == \A r \in 1 .. a.ny, k \in 1 .. a.nx :
   LET x == Stored(a, r, k) - 1
       y == Stored(b, r, k) - 1
   IN  /\ (x \div a.nx = y \div a.nx) = (a.sy = b.sy \/ 2 * (x \div a.nx) = a.ny - 1)
       /\ (x % a.nx = y % a.nx) = (a.sx = b.sx \/ 2 * (x % a.nx) = a.nx - 1)
Descriptions == \A v \in {FlipRows(w), FlipCols(w), FlipCols(FlipRows(w)), Shift(w, w.M)} :
   SameSky(v, w) /\ Valid(v) = Valid(w) /\ DefaultLmax(v) = DefaultLmax(w) /\ Mirror(w, v)
(* distances on the sky: row r + 1 is one step further south, column k + 1 one step further east, whatever the description *)
Steps == /\ \A r \in 1 .. w.ny : LET s == Stored(w, r, 1)
                                     i == ((s - 1) \div w.nx) + 1 IN Row(w, i) = TopRow(w) + r - 1
         /\ \A k \in 1 .. w.nx : LET s == Stored(w, 1, k)
                                     i == ((s - 1) % w.nx) + 1
                                 IN  ColLon(w, IF Mutant = "west" THEN w.nx + 1 - i ELSE i) = (ColLon(w, FirstCol(w)) + 1440 * (k - 1)) % (1440 * w.M)
Bijection == LET f == Reform(w) IN {f[x] : x \in 1 .. Len(f)} = 1 .. Len(f)
===================================================================================
