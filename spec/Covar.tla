---------------------------------- MODULE Covar ----------------------------------
(***************************************************************************)
(* Gaussian covariances of pseudo-spectra, in the narrow-kernel limit.     *)
(*                                                                         *)
(* Masked fields x~ = M[w] x; for spin-2 fields, with u the mask,          *)
(*    E~ = P E + N B,  B~ = P B - N E     (P = P[u], N = N[u]).            *)
(* Masking twice is masking with the product, M[u] M[v] = M[uv], so if     *)
(* the spectra vary little over the width of the kernels,                  *)
(*    < a~ c~* > = P[uv] C_ac              same components,                *)
(*               = +-(1/2) N[uv] C         one of the two leaked,          *)
(* P N and N P being one half of N[uv] each to leading order; leaking      *)
(* twice is of second order.  Between a scalar and a component the scalar  *)
(* kernel is used.                                                         *)
(* Components: 0 scalar or E, 1 B.                                         *)
(***************************************************************************)
EXTENDS Coupling

(* what <a c> gets from <a2 c2>: kernel ("0", "+", "-", "" for none) and factor *)
Leak(from, to) == IF to = 0 THEN 1 ELSE -1        \* E~ gets +N B, B~ gets -N E
Window(sa, sc, a, c, a2, c2) ==
  IF sa = 0 \/ sc = 0 THEN (IF a = a2 /\ c = c2 THEN <<"0", RInt(1)>> ELSE <<"", RInt(0)>>)
  ELSE CASE a = a2 /\ c = c2 -> <<"+", RInt(1)>>
         [] a # a2 /\ c # c2 -> <<"", RInt(0)>>
         [] a # a2           -> <<"-", RFrac(Leak(a2, a), 2)>>
         [] OTHER            -> <<"-", RFrac(-Leak(c2, c), 2)>>          \* the kernel of c is transposed: N' = -N
(* two of them, contracted over orders: kernels by the cross-spectrum p of the two products of masks *)
Kernels4(p, lmax) ==
  LET T(s1, s2, par) == Eager([l1 \in 1 .. lmax + 1 |-> Eager([k1 \in 1 .. lmax + 1 |-> Xi(p, s1, s2, l1 - 1, k1 - 1, par)])])
  IN  [s |-> T(0, 0, 0), x |-> T(0, 2, 0), p |-> T(2, 2, 0), m |-> T(2, 2, 1)]
(* only spin-0 fields *)
Kernels0(p, lmax) == LET K == Eager([l1 \in 1 .. lmax + 1 |-> Eager([k1 \in 1 .. lmax + 1 |-> Xi(p, 0, 0, l1 - 1, k1 - 1, 0)])]) IN [s |-> K, x |-> K, p |-> K, m |-> K]
(* name of the table and factor; factor 0: nothing *)
Contract(w1, w2) ==
  LET f == RMul(w1[2], w2[2]) IN
  CASE w1[1] = "0" /\ w2[1] = "0" -> <<"s", f>>
    [] <<w1[1], w2[1]>> \in {<<"0", "+">>, <<"+", "0">>} -> <<"x", f>>
    [] w1[1] = "+" /\ w2[1] = "+" -> <<"p", f>>
    [] w1[1] = "-" /\ w2[1] = "-" -> <<"m", f>>
    [] OTHER -> <<"s", RInt(0)>>
(* the terms of < (a c) (b d) > as a list of <<table, factor, a2, c2, b2, d2>> *)
Comps(s) == IF s = 0 THEN {0} ELSE {0, 1}
SetSeq(S) == LET RECURSIVE Run(_)
                 Run(R) == IF R = {} THEN <<>> ELSE LET x == CHOOSE y \in R : TRUE IN <<x>> \o Run(R \ {x})
             IN  Run(S)
Terms(sa, sb, sc, sd, a, b, c0, d) ==
  SetSeq({t \in {LET t == Contract(Window(sa, sc, a, c0, a2, c2), Window(sb, sd, b, d, b2, d2)) IN <<t[1], t[2], a2, c2, b2, d2>>
                  : a2 \in Comps(sa), b2 \in Comps(sb), c2 \in Comps(sc), d2 \in Comps(sd)} : t[2] # RInt(0)})
(* symmetrised product of two spectra *)
Sym(x, y, l, k) == RMul(RFrac(1, 2), RAdd(RMul(x[l + 1], y[k + 1]), RMul(x[k + 1], y[l + 1])))
(* guess spectra of fields of m and n components: pair (x, y) at x * n + y *)
Pick(C, n, x, y) == C[x * n + y + 1]
(* covariance of spectrum (a, b) at l with spectrum (c0, d) at k; K1: kernels of the products ac, bd; K2: of ad, bc *)
TermSum(T, K, X, nx, Y, ny, l, k) == RSum(Eager([j \in 1 .. Len(T) |->
   RMul(RMul(T[j][2], K[T[j][1]][l + 1][k + 1]), Sym(Pick(X, nx, T[j][3], T[j][4]), Pick(Y, ny, T[j][5], T[j][6]), l, k))]))
CovEntry(T1, T2, K1, K2, sp, C, l, k) ==       \* sp: the four spins; C = [ac, ad, bc, bd]
  RAdd(TermSum(T1, K1, C.ac, NMaps(sp[3]), C.bd, NMaps(sp[4]), l, k), TermSum(T2, K2, C.ad, NMaps(sp[4]), C.bc, NMaps(sp[3]), l, k))
CovTerms(sp) ==                                  \* by pair of spectra, 1-based
  LET n1 == NCls(sp[1], sp[2])
      n2 == NCls(sp[3], sp[4])
  IN  Eager([i1 \in 1 .. n1 |-> Eager([j1 \in 1 .. n2 |->
        LET a == (i1 - 1) \div NMaps(sp[2])
            b == (i1 - 1) % NMaps(sp[2])
            c0 == (j1 - 1) \div NMaps(sp[4])
            d == (j1 - 1) % NMaps(sp[4])
        IN  <<Terms(sp[1], sp[2], sp[3], sp[4], a, b, c0, d), Terms(sp[1], sp[2], sp[4], sp[3], a, b, d, c0)>>])])
(* the whole matrix, rows l * n1 + spectrum, columns k * n2 + spectrum *)
CovMatrix(K1, K2, sp, C, lmax) ==
  LET n1 == NCls(sp[1], sp[2])
      n2 == NCls(sp[3], sp[4])
      T == CovTerms(sp)
  IN  Eager([r \in 1 .. n1 * (lmax + 1) |-> Eager([q \in 1 .. n2 * (lmax + 1) |->
        LET t == T[((r - 1) % n1) + 1][((q - 1) % n2) + 1]
        IN  CovEntry(t[1], t[2], K1, K2, sp, C, (r - 1) \div n1, (q - 1) \div n2)])])
==================================================================================
