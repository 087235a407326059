--------------------------------- MODULE Wigner ---------------------------------
(* Angular-momentum algebra: Wigner 3j symbols (Racah's sum) and spin-weighted  *)
(* spherical harmonics (Goldberg's sum).  Accelerated by /verif/java.           *)
EXTENDS Rat

LOCAL Fact(n) == LET RECURSIVE F(_)
                     F(k) == IF k = 0 THEN 1 ELSE k * F(k - 1) IN F(n)
LOCAL Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE Fact(n) \div (Fact(k) * Fact(n - k))
LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
LOCAL Sgn(k) == IF k % 2 = 0 THEN 1 ELSE -1
LOCAL SumOver(lo, hi, F(_)) == LET RECURSIVE S(_)
                                   S(i) == IF i > hi THEN 0 ELSE F(i) + S(i + 1) IN S(lo)

(* ( a  b  c  )                                                                 *)
(* ( al be ga )                                                                 *)
W3j(a, b, c, al, be, ga) ==
  IF \/ al + be + ga # 0 \/ Abs(al) > a \/ Abs(be) > b \/ Abs(ga) > c
     \/ c < Abs(a - b) \/ c > a + b
  THEN RInt(0)
  ELSE LET T(t) == Sgn(t) * Binom(a + b - c, t) * Binom(a - b + c, a - al - t) * Binom(-a + b + c, b + be - t)
           S    == SumOver(0, a + b + c, T)
           nu   == Fact(a + al) * Fact(a - al) * Fact(b + be) * Fact(b - be) * Fact(c + ga) * Fact(c - ga)
           de   == Fact(a + b - c) * Fact(a - b + c) * Fact(-a + b + c) * Fact(a + b + c + 1)
           r    == RSqrt(RFrac(nu * S * S, de))
       IN  IF Sgn(a - b - ga) * (IF S < 0 THEN -1 ELSE 1) < 0 THEN RNeg(r) ELSE r

LOCAL Pow(x, k) == LET RECURSIVE P(_)
                       P(i) == IF i = 0 THEN RInt(1) ELSE RMul(x, P(i - 1)) IN P(k)
(* sY_lm(theta, phi) = SLambda(s, l, m, cos(theta/2), sin(theta/2)) * exp(i m phi) *)
SLambda(s, l, m, ch, sh) ==
  IF Abs(s) > l \/ Abs(m) > l THEN RInt(0)
  ELSE LET lo == IF m - s > 0 THEN m - s ELSE 0
           hi == IF l - s < l + m THEN l - s ELSE l + m
           Term(r) == RMul(RInt(Sgn(l - r - s) * Binom(l - s, r) * Binom(l + s, r + s - m)),
                           RMul(Pow(ch, 2 * r + s - m), Pow(sh, 2 * l - 2 * r - s + m)))
           RECURSIVE Sm(_)
           Sm(r) == IF r > hi THEN RInt(0) ELSE RAdd(Term(r), Sm(r + 1))
           nrm == RSqrt(RDiv(RFrac(Fact(l + m) * Fact(l - m) * (2 * l + 1), Fact(l + s) * Fact(l - s) * 4), RPi))
       IN  RMul(RInt(Sgn(m)), RMul(Sm(lo), nrm))
================================================================================
