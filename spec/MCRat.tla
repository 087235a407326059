---------------------------------- MODULE MCRat ----------------------------------
(***************************************************************************)
(* The numbers the other modules compute with: laws of exact arithmetic    *)
(* over whole numbers, fractions over powers of two (kept without common   *)
(* divisors by shifts) and other fractions, and of the vector operators.   *)
(***************************************************************************)
EXTENDS Kernels, TLC

CONSTANT N
VARIABLES ra, rb, rc
Wide  == RMul(RFrac(982451653, 65536), RFrac(1, 1048576))
Vals  == {RFrac(p, q) : p \in -N .. N, q \in {1, 2, 3, 4, 8, 12}} \cup {RMul(Wide, RFrac(p, q)) : p \in {-3, 1, 4}, q \in {1, 3, 32}}
Init  == ra = RInt(0) /\ rb = RInt(0) /\ rc = RInt(0)
Next  == ra = RInt(0) /\ rb = RInt(0) /\ rc = RInt(0) /\ ra' \in Vals /\ rb' \in Vals /\ rc' \in {RFrac(1, 3), RFrac(-5, 4), RInt(7), Wide}
Spec  == Init /\ [][Next]_<<ra, rb, rc>>
Ring  == /\ RAdd(ra, rb) = RAdd(rb, ra)
         /\ RMul(ra, rb) = RMul(rb, ra)
         /\ RAdd(RAdd(ra, rb), rc) = RAdd(ra, RAdd(rb, rc))
         /\ RMul(RMul(ra, rb), rc) = RMul(ra, RMul(rb, rc))
         /\ RMul(ra, RAdd(rb, rc)) = RAdd(RMul(ra, rb), RMul(ra, rc))
         /\ RSub(RAdd(ra, rb), rb) = ra
         /\ RAdd(ra, RNeg(ra)) = RInt(0)
         /\ (rb # RInt(0) => RMul(RDiv(ra, rb), rb) = ra /\ RDiv(RMul(ra, rb), rb) = ra)
Order == /\ (RLt(ra, rb) <=> RLt(RInt(0), RSub(rb, ra)))
         /\ (RLe(ra, rb) <=> (RLt(ra, rb) \/ ra = rb))
         /\ (RLt(ra, rb) <=> RLt(RAdd(ra, rc), RAdd(rb, rc)))
         /\ (RLt(RInt(0), rc) => (RLt(ra, rb) <=> RLt(RMul(ra, rc), RMul(rb, rc))))
         /\ RAbs(ra) = (IF RLt(ra, RInt(0)) THEN RNeg(ra) ELSE ra)
Vector == LET u == <<ra, rb, rc, RFrac(1, 8)>>
              w == <<rb, rc, ra, RFrac(3, 16)>>
              s == RAdd(RAdd(RMul(ra, rb), RMul(rb, rc)), RAdd(RMul(rc, ra), RFrac(3, 128)))
          IN  /\ RDot(u, w) = s
              /\ RSum(RMulV(u, w)) = s
              /\ RMatVec(<<u, w>>, w)[1] = s
              /\ RMatMul(<<u>>, RTranspose(<<w, u>>))[1][1] = s
              /\ RMatMul(<<u>>, RTranspose(<<w, u>>))[1][2] = RDot(u, u)
              /\ RLin(ra, u, rb, w)[2] = RAdd(RMul(ra, rb), RMul(rb, rc))
              /\ RMaxAbs(u) \in {RAbs(u[j]) : j \in 1 .. 4}
              /\ \A j \in 1 .. 4 : RLe(RAbs(u[j]), RMaxAbs(u))
Complex == LET x == <<ra, rb>>
               y == <<rb, rc>>
               N2(z) == RAdd(RMul(z[1], z[1]), RMul(z[2], z[2]))
               xy == CMul(x, y)
           IN  /\ N2(xy) = RMul(N2(x), N2(y))
               /\ xy[1] = RSub(RMul(ra, rb), RMul(rb, rc))
               /\ CMul(x, CConj(x)) = <<N2(x), RInt(0)>>
               /\ CAdd(CSub(x, y), y) = x
               /\ CScl(rc, x) = CMul(<<rc, RInt(0)>>, x)
               /\ CSumSeq(<<x, y, x>>) = CAdd(CScl(RInt(2), x), y)
               /\ CSumSeq(<<>>) = C0
Root  == RMul(RSqrt(RMul(ra, ra)), RInt(1)) = RAbs(ra) \/ RLt(RAbs(RSub(RSqrt(RMul(ra, ra)), RAbs(ra))), RDiv(RAbs(ra), RStr("1e70")))
Turn  == /\ RLt(RAbs(RSub(RAdd(RMul(RCosPi(ra), RCosPi(ra)), RMul(RSinPi(ra), RSinPi(ra))), RInt(1))), RStr("1e-70"))
         /\ RLt(RAbs(RSub(RCosPi(RAdd(ra, rb)), RSub(RMul(RCosPi(ra), RCosPi(rb)), RMul(RSinPi(ra), RSinPi(rb))))), RStr("1e-70"))
         /\ RLt(RAbs(RSub(RCos(RMul(RPi, ra)), RCosPi(ra))), RStr("1e-60"))
=================================================================================
