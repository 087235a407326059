---------------------------------- MODULE Pinv ----------------------------------
(***************************************************************************)
(* Pseudo-inverses of symmetric matrices above a cut on the eigenvalues,   *)
(* without eigenvectors.  X is the inverse of M on the eigenvectors with   *)
(* eigenvalue at least c (and nothing on the others) if and only if        *)
(*   X is symmetric, M X is symmetric (X commutes with M), X M X = X (M X  *)
(*   projects), the trace of M X is the number of eigenvalues of M that    *)
(*   are at least c, and the eigenvalues of X are between 0 and 1 / c.     *)
(* Numbers of eigenvalues come from the signs of the pivots of a           *)
(* symmetric elimination (Sylvester's law of inertia).                     *)
(***************************************************************************)
EXTENDS Rat

R0 == RInt(0)
R1 == RInt(1)
Ident(n) == Eager([a \in 1 .. n |-> Eager([b \in 1 .. n |-> IF a = b THEN R1 ELSE R0])])
MLin(u, A, v, B) == Eager([a \in 1 .. Len(A) |-> Eager([b \in 1 .. Len(A) |-> RAdd(RMul(u, A[a][b]), RMul(v, B[a][b]))])])
MMul(A, B) == Eager([a \in 1 .. Len(A) |-> Eager([b \in 1 .. Len(A) |-> RSum(Eager([k \in 1 .. Len(A) |-> RMul(A[a][k], B[k][b])]))])])
Tr(A) == RSum(Eager([a \in 1 .. Len(A) |-> A[a][a]]))
(* numbers of positive and negative eigenvalues *)
Best(A) == CHOOSE a \in 1 .. Len(A) : \A b \in 1 .. Len(A) : RLe(RAbs(A[b][b]), RAbs(A[a][a]))
Without1(A, p) == Eager([a \in 1 .. Len(A) - 1 |-> LET x == IF a < p THEN a ELSE a + 1 IN
                     Eager([b \in 1 .. Len(A) - 1 |-> LET y == IF b < p THEN b ELSE b + 1 IN RSub(A[x][y], RDiv(RMul(A[x][p], A[p][y]), A[p][p]))])])
RECURSIVE Inertia(_)
Inertia(A) ==
  IF Len(A) = 0 THEN <<0, 0>>
  ELSE LET p == Best(A) IN
    IF A[p][p] # R0
    THEN LET r == Inertia(Without1(A, p)) IN IF RLt(R0, A[p][p]) THEN <<r[1] + 1, r[2]>> ELSE <<r[1], r[2] + 1>>
    ELSE LET off == {z \in (1 .. Len(A)) \X (1 .. Len(A)) : z[1] < z[2] /\ A[z[1]][z[2]] # R0} IN
      IF off = {} THEN <<0, 0>>
      ELSE \* no diagonal at all: adding row y to row x keeps the signs and makes one
        LET z == CHOOSE z \in off : TRUE
            A1 == Eager([a \in 1 .. Len(A) |-> IF a = z[1] THEN Eager([b \in 1 .. Len(A) |-> RAdd(A[a][b], A[z[2]][b])]) ELSE A[a]])
        IN  Inertia(Eager([a \in 1 .. Len(A) |-> Eager([b \in 1 .. Len(A) |-> IF b = z[1] THEN RAdd(A1[a][b], A1[a][z[2]]) ELSE A1[a][b]])]))
(* how many eigenvalues exceed c *)
Above(A, c) == Inertia(MLin(R1, A, RNeg(c), Ident(Len(A))))[1]
(* the largest eigenvalue, to within 2^-k of the largest absolute row sum *)
RowBound(A) == RMaxAbs(Eager([a \in 1 .. Len(A) |-> RSum(Eager([b \in 1 .. Len(A) |-> RAbs(A[a][b])]))]))
Largest(A, k) ==
  LET b == RowBound(A)
      RECURSIVE B(_, _, _)
      B(lo, hi, j) == IF j = 0 THEN hi ELSE LET m == RRound(RDiv(RAdd(lo, hi), RInt(2))) IN IF Above(A, m) > 0 THEN B(m, hi, j - 1) ELSE B(lo, m, j - 1)
  IN  B(RNeg(b), b, k + 1)
(* the conditions, within tol of M's and X's own sizes; c: the cut *)
MWithin(A, B, tol) == RLe(RMaxAbs(MLin(R1, A, RInt(-1), B)), tol)
TransM(A) == Eager([a \in 1 .. Len(A) |-> Eager([b \in 1 .. Len(A) |-> A[b][a]])])
Commutes(M, X, tol) == LET P == MMul(M, X) IN MWithin(X, TransM(X), RMul(tol, RMaxAbs(X))) /\ MWithin(P, TransM(P), tol)
Projects(M, X, tol) == MWithin(MMul(MMul(X, M), X), X, RMul(tol, RMaxAbs(X)))
Counts(M, X, c, tol) == RLe(RAbs(RSub(Tr(MMul(M, X)), RInt(Above(M, c)))), tol)
Bounded(X, c, tol)  == Above(MLin(c, X, R0, X), RAdd(R1, tol)) = 0 /\ Above(MLin(RNeg(c), X, R0, X), tol) = 0
IsPinv(M, X, c, tol) == Commutes(M, X, tol) /\ Projects(M, X, tol) /\ Counts(M, X, c, tol) /\ Bounded(X, c, tol)
(* a complex Hermitian matrix A + iB as a real symmetric one of twice the size *)
Doubled(A, B) == LET n == Len(A) IN Eager([a \in 1 .. 2 * n |-> Eager([b \in 1 .. 2 * n |->
   IF (a <= n) = (b <= n) THEN A[((a - 1) % n) + 1][((b - 1) % n) + 1]
   ELSE IF a <= n THEN RNeg(B[a][b - n]) ELSE B[a - n][b]])])
=================================================================================
