------------------------------- MODULE MCToeplitz -------------------------------
(***************************************************************************)
(* The order in which an implementation may fill a Toeplitz-approximated   *)
(* matrix: correlations of column lt everywhere, then the exact elements   *)
(* (in any order), then the corner of large distances from row le.  Each   *)
(* element is labelled with where it comes from; at the end every label is *)
(* the one module Coupling specifies, whatever the order of exact elements *)
(* and for every choice of parameters.                                     *)
(***************************************************************************)
EXTENDS Coupling, TLC
CONSTANTS LMaxs
VARIABLES lmax, v_lt, v_le, v_db, phase, row, lab
vars == <<lmax, v_lt, v_le, v_db, phase, row, lab>>
Pairs(x) == {<<l, k>> \in (0 .. x) \X (0 .. x) : l >= k}
Wrap(i) == IF i >= lmax + 1 THEN i - lmax - 1 ELSE i
Init == /\ lmax \in LMaxs /\ v_lt \in 1 .. lmax - 1 /\ v_le \in 1 .. v_lt /\ v_db \in 0 .. lmax - 1
        /\ phase = "column" /\ row = 0 /\ lab = <<>>
Column == /\ phase = "column"
          /\ lab' = [q \in Pairs(lmax) |-> <<"from", Wrap(q[1] + v_lt - q[2]), v_lt>>]
          /\ phase' = "exact" /\ row' = 0 /\ UNCHANGED <<lmax, v_lt, v_le, v_db>>
End(l) == Min2(lmax, IF l <= v_le THEN lmax ELSE IF l <= v_lt THEN l + v_db ELSE l)
Exact == /\ phase = "exact" /\ row <= lmax
         /\ lab' = [q \in Pairs(lmax) |-> IF q[2] = row /\ q[1] <= End(row) THEN <<"exact">> ELSE lab[q]]
         /\ row' = row + 1 /\ UNCHANGED <<lmax, v_lt, v_le, v_db, phase>>
Corner == /\ phase = "exact" /\ row = lmax + 1
          /\ lab' = [q \in Pairs(lmax) |-> IF q[1] >= lmax + v_le - v_lt /\ q[2] >= v_le /\ q[2] <= q[1] + v_lt - lmax /\ ~ (q[2] <= v_lt /\ q[1] - q[2] <= v_db) /\ q[2] > v_le
                                           THEN <<"from", v_le + q[1] - q[2], v_le>> ELSE lab[q]]
          /\ phase' = "done" /\ UNCHANGED <<lmax, v_lt, v_le, v_db, row>>
Next == Column \/ Exact \/ Corner
Spec == Init /\ [][Next]_vars
Specified(q) == IF ToepExact(q[1], q[2], v_lt, v_le, v_db) THEN <<"exact">>
                ELSE LET r == ToepRef(q[1], q[2], v_lt, v_le, lmax) IN <<"from", r + q[1] - q[2], r>>
Filled == phase = "done" => \A q \in Pairs(lmax) : lab[q] = Specified(q)
(* what an element is filled from is itself exact, and inside the matrix *)
Grounded == \A q \in Pairs(lmax) : ToepExact(q[1], q[2], v_lt, v_le, v_db) \/
              LET r == ToepRef(q[1], q[2], v_lt, v_le, lmax) IN r + q[1] - q[2] <= lmax
(* the extremes: everything exact *)
Extremes == (v_le = v_lt /\ v_lt = lmax - 1) => \A q \in Pairs(lmax) : ToepExact(q[1], q[2], v_lt, v_le, v_db)
Valid == ToepValid(<<v_lt, v_le, v_db>>, lmax)
=================================================================================
