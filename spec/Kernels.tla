--------------------------------- MODULE Kernels ---------------------------------
(***************************************************************************)
(* First principles: multipoles of a product of a mask and a spin field,   *)
(* as integrals of three spin-weighted harmonics (Gaunt integrals), and    *)
(* ensemble averages of products of such multipoles.  Everything the       *)
(* coupling matrices claim is derived from these in the MC models.         *)
(* Complex numbers are pairs; a real mask is w(L, M) for all |M| <= L.     *)
(***************************************************************************)
EXTENDS Coupling

C0         == <<RInt(0), RInt(0)>>
C1         == <<RInt(1), RInt(0)>>
CI         == <<RInt(0), RInt(1)>>
CAdd(x, y) == <<RAdd(x[1], y[1]), RAdd(x[2], y[2])>>
CSub(x, y) == <<RSub(x[1], y[1]), RSub(x[2], y[2])>>
CMul(x, y) == <<RSub(RMul(x[1], y[1]), RMul(x[2], y[2])), RAdd(RMul(x[1], y[2]), RMul(x[2], y[1]))>>
CScl(r, x) == <<RMul(r, x[1]), RMul(r, x[2])>>
CConj(x)   == <<x[1], RNeg(x[2])>>
CSumSeq(s) == LET RECURSIVE S(_)
                  S(i) == IF i = 0 THEN C0 ELSE CAdd(S(i - 1), s[i]) IN S(Len(s))

(* integral of  s1Y_l1m1 s2Y_l2m2 s3Y_l3m3  (s1 + s2 + s3 = 0) *)
Gaunt(l1, m1, s1, l2, m2, s2, l3, m3, s3) ==
  RMul(RSqrt(RDiv(RInt((2 * l1 + 1) * (2 * l2 + 1) * (2 * l3 + 1)), FourPi)),
       RMul(W3j(l1, l2, l3, m1, m2, m3), W3j(l1, l2, l3, -s1, -s2, -s3)))
(* K(l m; k n): the (l,m) multipole, as a spin-s field, of [mask, a spin-t function] times [the (k,n) harmonic of spin u], s = t + u *)
Kernel(w(_, _), lw, t, s, l, m, u, k, n) ==
  IF Abs2(s) > l \/ Abs2(u) > k THEN C0
  ELSE LET M == m - n
           lo == Max2(Max2(Abs2(l - k), Abs2(M)), Abs2(t))
           hi == Min2(l + k, lw)
       IN  IF hi < lo THEN C0
           ELSE CSumSeq([j \in 1 .. hi - lo + 1 |-> LET L == lo + j - 1 IN
                   CScl(RMul(RInt(Sgn1(s + m)), Gaunt(l, -m, -s, k, n, u, L, M, t)), w(L, M))])
(* Masking couples E and B:  E~ = Ke E + Ko B,  B~ = -Ko E + Ke B. *)
Ke(w(_, _), lw, s, l, m, k, n) == IF s = 0 THEN Kernel(w, lw, 0, 0, l, m, 0, k, n)
                                  ELSE CScl(RFrac(1, 2), CAdd(Kernel(w, lw, 0, s, l, m, s, k, n), Kernel(w, lw, 0, -s, l, m, -s, k, n)))
Ko(w(_, _), lw, s, l, m, k, n) == IF s = 0 THEN C0
                                  ELSE CScl(RFrac(1, 2), CMul(CI, CSub(Kernel(w, lw, 0, s, l, m, s, k, n), Kernel(w, lw, 0, -s, l, m, -s, k, n))))
(* Component x of the masked field from component y of the field (0: E or scalar, 1: B). *)
KComp(w(_, _), lw, s, x, y, l, m, k, n) ==
  CASE x = y -> Ke(w, lw, s, l, m, k, n)
    [] x = 0 -> Ko(w, lw, s, l, m, k, n)
    [] OTHER -> CScl(RInt(-1), Ko(w, lw, s, l, m, k, n))
(* Ensemble average: spectrum of components (x1, x2) at l from unit power in components (y1, y2) at k. *)
MeanPower(K1(_, _, _, _, _, _), K2(_, _, _, _, _, _), x1, x2, y1, y2, l, k) ==
  LET S == [i \in 1 .. (2 * l + 1) * (2 * k + 1) |->
              LET m == ((i - 1) \div (2 * k + 1)) - l
                  n == ((i - 1) % (2 * k + 1)) - k
              IN  CMul(K1(x1, y1, l, m, k, n), CConj(K2(x2, y2, l, m, k, n)))]
  IN  CScl(RFrac(1, 2 * l + 1), CSumSeq(Eager(S)))

(***************************************************************************)
(* A field P weighted as w P + a conj(P), a = sum of -(e + i b) times      *)
(* spin-2s harmonics: component x from component y.                        *)
(***************************************************************************)
KAniso(w(_, _), e(_, _), b(_, _), lw, s, x, y, l, m, k, n) ==
  LET ap(L, M) == CScl(RInt(-1), CAdd(e(L, M), CMul(CI, b(L, M))))
      am(L, M) == CScl(RInt(-1), CSub(e(L, M), CMul(CI, b(L, M))))
      Kpp == Kernel(w, lw, 0, s, l, m, s, k, n)
      Kmm == Kernel(w, lw, 0, -s, l, m, -s, k, n)
      Kpm == CScl(RInt(Sgn1(s)), Kernel(ap, lw, 2 * s, s, l, m, -s, k, n))
      Kmp == CScl(RInt(Sgn1(s)), Kernel(am, lw, -2 * s, -s, l, m, s, k, n))
      fE == CAdd(CAdd(Kpp, Kmm), CAdd(Kpm, Kmp))                          \* (E~+iB~) + (E~-iB~) from E
      fB == CMul(CI, CAdd(CSub(Kpp, Kmm), CSub(Kmp, Kpm)))
      gE == CAdd(CSub(Kpp, Kmm), CSub(Kpm, Kmp))                          \* (E~+iB~) - (E~-iB~)
      gB == CMul(CI, CSub(CAdd(Kpp, Kmm), CAdd(Kpm, Kmp)))
  IN  IF s = 0 THEN Kernel(w, lw, 0, 0, l, m, 0, k, n)
      ELSE CASE x = 0 /\ y = 0 -> CScl(RFrac(1, 2), fE)
             [] x = 0           -> CScl(RFrac(1, 2), fB)
             [] y = 0           -> CScl(RFrac(-1, 2), CMul(CI, gE))
             [] OTHER           -> CScl(RFrac(-1, 2), CMul(CI, gB))
================================================================================
