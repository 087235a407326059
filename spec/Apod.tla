---------------------------------- MODULE Apod ----------------------------------
(***************************************************************************)
(* Apodisation of masks: every pixel is multiplied by a taper of its       *)
(* distance to the nearest pixel where the mask is zero.                   *)
(***************************************************************************)
EXTENDS Rat

RHalf == RFrac(1, 2)
Taper(type, x) == CASE RLe(RInt(1), x) -> RInt(1)
                    [] RLe(x, RInt(0)) -> RInt(0)
                    [] type = "C1" -> RSub(x, RDiv(RSinPi(RMul(RInt(2), x)), RMul(RInt(2), RPi)))
                    [] OTHER -> RMul(RHalf, RSub(RInt(1), RCosPi(x)))
(* exponential of a number below 0 *)
RExp(x) == LET RECURSIVE T(_, _)
               T(j, z) == IF j = 30 THEN RInt(1) ELSE RAdd(RInt(1), RRound(RMul(RDiv(z, RInt(j)), T(j + 1, z))))
               RECURSIVE E(_)
               E(z) == IF RLe(RInt(-1), z) THEN T(1, z) ELSE LET y == E(RMul(RHalf, z)) IN RRound(RMul(y, y))
           IN  E(x)
ZeroList(m, j) == SelectSeq([k \in 1 .. j |-> k], LAMBDA k : m[k] = RInt(0))
RECURSIVE LeastOf(_, _)
LeastOf(x, j) == IF j = 1 THEN x[1] ELSE LET r == LeastOf(x, j - 1) IN IF RLe(r, x[j]) THEN r ELSE x[j]

(* On the sphere: V unit vectors.  1 - cos of the distance of each of the pixels at to the nearest of the pixels zs *)
Nearest(V, zs, at) ==
  LET W(j) == <<RInt(1), V[j][1], V[j][2], V[j][3]>>
      A == Eager([k \in 1 .. Len(at) |-> W(at[k])])
      Z == Eager([k \in 1 .. Len(zs) |-> W(zs[k])])
      D == RMatMul(A, RTranspose(Z))
  IN  Eager([k \in 1 .. Len(at) |-> RSub(RInt(2), RMaxAbs(D[k]))])
(* cs: cosine of the scale *)
ApodSphere(V, m, cs, type, at) ==
  LET zs == ZeroList(m, Len(m)) IN
  IF Len(zs) = 0 THEN Eager([k \in 1 .. Len(at) |-> m[at[k]]])
  ELSE LET d == Nearest(V, zs, at) IN
       Eager([k \in 1 .. Len(at) |-> IF m[at[k]] = RInt(0) THEN RInt(0)
                                     ELSE LET r == RDiv(d[k], RSub(RInt(1), cs)) IN IF RLe(RInt(1), r) THEN m[at[k]] ELSE RMul(m[at[k]], Taper(type, RSqrt(r)))])

(* On a flat patch of nx by ny pixels of size dx by dy, without periodicity: squared distance to the nearest zero *)
NearestFlat(nx, dx, dy, zs, n) ==
  LET x(j) == (j - 1) % nx
      y(j) == (j - 1) \div nx
      D(j, z) == RAdd(RMul(RInt((x(j) - x(z)) * (x(j) - x(z))), RMul(dx, dx)), RMul(RInt((y(j) - y(z)) * (y(j) - y(z))), RMul(dy, dy)))
  IN  Eager([j \in 1 .. n |-> LeastOf([k \in 1 .. Len(zs) |-> D(j, zs[k])], Len(zs))])
ApodFlat(nx, dx, dy, m, scale, type) ==
  LET zs == ZeroList(m, Len(m)) IN
  IF Len(zs) = 0 THEN m
  ELSE LET d == NearestFlat(nx, dx, dy, zs, Len(m))
           s2 == RMul(scale, scale)
       IN  Eager([j \in 1 .. Len(m) |-> IF m[j] = RInt(0) THEN RInt(0)
                                        ELSE IF RLe(s2, d[j]) THEN m[j] ELSE RMul(m[j], Taper(type, RDiv(RSqrt(d[j]), scale)))])
(* without the pixels closer than 5/2 scales to a zero *)
CutFlat(nx, dx, dy, m, scale) ==
  LET zs == ZeroList(m, Len(m)) IN
  IF Len(zs) = 0 THEN m
  ELSE LET d == NearestFlat(nx, dx, dy, zs, Len(m))
           s2 == RMul(RFrac(25, 4), RMul(scale, scale))
       IN  Eager([j \in 1 .. Len(m) |-> IF RLe(d[j], s2) THEN RInt(0) ELSE m[j]])
=================================================================================
