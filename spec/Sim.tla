----------------------------------- MODULE Sim -----------------------------------
(***************************************************************************)
(* Gaussian simulations.  For every mode a seed gives n independent        *)
(* numbers of unit variance; the simulated coefficients are a linear       *)
(* combination of them with a square root of the covariance C given by the *)
(* spectra.  Which root is used is not specified: two of them differ by a  *)
(* rotation, so what is specified of the coefficients a made from numbers  *)
(* g is that their size relative to C is that of g.                        *)
(***************************************************************************)
EXTENDS Kernels

(* position of the pair (a, b), a <= b, in the list [11, 12, .., 1n, 22, .., nn] *)
PairAt(n, a, b) == (a - 1) * n - ((a - 1) * (a - 2)) \div 2 + (b - a) + 1
NPairs(n) == (n * (n + 1)) \div 2
NCompOf(spins) == LET RECURSIVE S(_)
                      S(j) == IF j = 0 THEN 0 ELSE S(j - 1) + (IF spins[j] = 0 THEN 1 ELSE 2) IN S(Len(spins))
(* first component of every field; field of every component *)
FirstOf(spins, f) == 1 + NCompOf([j \in 1 .. f - 1 |-> spins[j]])
FieldAt(spins, x) == CHOOSE f \in 1 .. Len(spins) : FirstOf(spins, f) <= x /\ x <= FirstOf(spins, f) + (IF spins[f] = 0 THEN 0 ELSE 1)
(* v(pair): the value of that spectrum *)
CovOf(n, v(_)) == Eager([a \in 1 .. n |-> Eager([b \in 1 .. n |-> IF a <= b THEN v(PairAt(n, a, b)) ELSE v(PairAt(n, b, a))])])
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
(* components with power *)
Powered(C) == SelectSeq([a \in 1 .. Len(C) |-> a], LAMBDA a : C[a][a] # RInt(0))
SubOf(C, k) == Eager([a \in 1 .. Len(k) |-> Eager([b \in 1 .. Len(k) |-> C[k[a]][k[b]]])])
(* size of the complex coefficients a relative to the covariance with inverse iC *)
SizeIn(iC, a) ==
  LET re == Eager([x \in 1 .. Len(a) |-> a[x][1]])
      im == Eager([x \in 1 .. Len(a) |-> a[x][2]])
  IN  RAdd(RDot(re, RMatVec(iC, re)), RDot(im, RMatVec(iC, im)))
==================================================================================
