---------------------------------- MODULE MCSim ----------------------------------
(***************************************************************************)
(* A simulation of the modes of a patch by several workers.  The numbers   *)
(* of unit variance are drawn in order from the seed before the workers    *)
(* start; each worker takes rows of modes (any worker, any order), and     *)
(* turns the numbers of a row into coefficients in place, one mode at a    *)
(* time.  Column 0 holds both a mode and its conjugate: the row with       *)
(* positive wave number writes both.  Whatever the interleaving, the       *)
(* result is the one the seed gives (Schedule), the maps are real          *)
(* (Hermitian) and have the covariance asked for (Sized, Correlated),      *)
(* whichever square root of it is used.                                    *)
(***************************************************************************)
EXTENDS Sim, FiniteSets, TLC

CONSTANTS NY, NX, Workers

(* square roots of covariances of two components, exact; the last two are singular *)
Roots == { <<<<RInt(2), RInt(0)>>, <<RInt(1), RInt(3)>>>>,
           <<<<RFrac(6, 5), RFrac(-8, 5)>>, <<RInt(3), RInt(1)>>>>,
           <<<<RInt(1), RInt(0)>>, <<RInt(-2), RInt(0)>>>>,
           <<<<RInt(0), RInt(0)>>, <<RInt(0), RInt(2)>>>> }
Rotations == { <<<<RInt(1), RInt(0)>>, <<RInt(0), RInt(1)>>>>, <<<<RFrac(3, 5), RFrac(-4, 5)>>, <<RFrac(4, 5), RFrac(3, 5)>>>>, <<<<RInt(0), RInt(1)>>, <<RInt(1), RInt(0)>>>> }

VARIABLES root, mem, pend, at
vars == <<root, mem, pend, at>>

H == NX \div 2 + 1
Cell == (0 .. NY - 1) \X (0 .. H - 1)
(* the numbers a seed gives: distinct, in the order they are drawn *)
Noise(p) == LET k == p[1] * H + p[2] IN <<<<RInt(2 * k + 1), RInt(3 * k - 5)>>, <<RInt(7 - k), RInt(k * k + 1)>>>>
Mix(R, z) == <<CAdd(CScl(R[1][1], z[1]), CScl(R[1][2], z[2])), CAdd(CScl(R[2][1], z[1]), CScl(R[2][2], z[2]))>>
Conj2(z) == <<CConj(z[1]), CConj(z[2])>>
RealPart(z) == <<<<z[1][1], RInt(0)>>, <<z[2][1], RInt(0)>>>>
Elsewhere(y, x) == x = 0 /\ 2 * y > NY
Put(f, y, x) == LET z == Mix(root, f[<<y, x>>]) IN
  IF x > 0 THEN [f EXCEPT ![<<y, x>>] = z]
  ELSE IF y = 0 THEN [f EXCEPT ![<<y, x>>] = RealPart(z)]
  ELSE [f EXCEPT ![<<y, x>>] = z, ![<<NY - y, x>>] = Conj2(z)]
(* one worker, in order *)
Alone == LET RECURSIVE G(_)
             G(k) == IF k = 0 THEN [p \in Cell |-> Noise(p)]
                     ELSE LET y == (k - 1) \div H
                              x == (k - 1) % H
                          IN  IF Elsewhere(y, x) THEN G(k - 1) ELSE Put(G(k - 1), y, x)
         IN  G(NY * H)

Init == root = <<>> /\ mem = <<>> /\ pend = {} /\ at = <<>>
Choose == root = <<>> /\ \E r \in Roots, q \in Rotations :
  /\ root' = RMatMul(r, q)
  /\ mem' = [p \in Cell |-> Noise(p)]
  /\ pend' = 0 .. NY - 1
  /\ at' = [w \in 1 .. Workers |-> <<-1, 0>>]
Take(w) == root # <<>> /\ at[w][1] = -1 /\ \E y \in pend :
  /\ pend' = pend \ {y}
  /\ at' = [at EXCEPT ![w] = <<y, 0>>]
  /\ UNCHANGED <<root, mem>>
Work(w) == root # <<>> /\ at[w][1] >= 0 /\ LET y == at[w][1]
                                               x == at[w][2] IN
  /\ mem' = IF Elsewhere(y, x) THEN mem ELSE Put(mem, y, x)
  /\ at' = [at EXCEPT ![w] = IF x + 1 = H THEN <<-1, 0>> ELSE <<y, x + 1>>]
  /\ UNCHANGED <<root, pend>>
Next == Choose \/ (root # <<>> /\ \E w \in 1 .. Workers : Take(w) \/ Work(w))
Spec == Init /\ [][Next]_vars

Done == root # <<>> /\ pend = {} /\ \A w \in 1 .. Workers : at[w][1] = -1
Schedule == Done => mem = Alone
Opposite(p) == <<(NY - p[1]) % NY, p[2]>>
Hermitian == Done => \A p \in Cell : p[2] = 0 /\ 2 * p[1] # NY => mem[Opposite(p)] = Conj2(mem[p])
Cov == RMatMul(root, RTranspose(root))
Own(p) == ~ Elsewhere(p[1], p[2]) /\ ~ (p[2] = 0 /\ (p[1] = 0 \/ 2 * p[1] = NY))
Sized == Done => LET C == Cov
                     k == Powered(C)
                     reg == RSub(RMul(C[1][1], C[2][2]), RMul(C[1][2], C[2][1])) # RInt(0)
                 IN  \A p \in Cell : Own(p) =>
                       IF reg THEN SizeIn(RInv(C), mem[p]) = SizeIn(<<<<RInt(1), RInt(0)>>, <<RInt(0), RInt(1)>>>>, Noise(p))
                       ELSE \A a \in 1 .. 2 : (\A j \in 1 .. Len(k) : k[j] # a) => mem[p][a] = C0
(* a singular covariance: the combination without variance vanishes *)
Correlated == Done => LET C == Cov IN RSub(RMul(C[1][1], C[2][2]), RMul(C[1][2], C[2][1])) = RInt(0) =>
  \A p \in Cell : CSub(CScl(C[2][2], mem[p][1]), CScl(C[1][2], mem[p][2])) = C0
(* the list of spectra: every pair once, in the order of the rows of the upper triangle *)
Pairs == \A nn \in 1 .. 5 : /\ {PairAt(nn, x, y) : x \in 1 .. nn, y \in 1 .. nn} \cap (1 .. NPairs(nn)) # {}
                           /\ \A x \in 1 .. nn : \A y \in x .. nn : PairAt(nn, x, y) \in 1 .. NPairs(nn)
                                /\ (\A u \in 1 .. nn : \A v \in u .. nn : PairAt(nn, u, v) = PairAt(nn, x, y) => <<u, v>> = <<x, y>>)
                                /\ (y < nn => PairAt(nn, x, y + 1) = PairAt(nn, x, y) + 1)
=================================================================================
