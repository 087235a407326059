--------------------------------- MODULE MCBins ---------------------------------
(***************************************************************************)
(* The construction of a scheme as the library performs it -- find the     *)
(* number of bands, count members, fill the lists, normalise -- one entry  *)
(* of the request per step, explored for every request within the          *)
(* constants, with the partition and right-inverse properties checked on   *)
(* the finished scheme.  Each request is emitted for replay on the code.   *)
(***************************************************************************)
EXTENDS Bins, TLC, Json

CONSTANTS N, EllMax, BpwMax, Ws, Lmaxs, Emit

VARIABLES req, v_pc, v_k, v_nb, cnt, lists
vars == <<req, v_pc, v_k, v_nb, cnt, lists>>

Reqs == UNION {[ells : [1 .. n -> 0 .. EllMax], bpws : [1 .. n -> -1 .. BpwMax], wi : [1 .. n -> Ws], lmax : Lmaxs] : n \in 1 .. N}
Num(q) == [lmax |-> q.lmax, ells |-> q.ells, bpws |-> q.bpws, ws |-> [j \in DOMAIN q.wi |-> RInt(q.wi[j])], fs |-> [j \in DOMAIN q.wi |-> RInt(((q.ells[j] + j) % 3) * 2)]]
Q == Num(req)

Init == /\ req \in Reqs
        /\ v_pc = "bands" /\ v_k = 1 /\ v_nb = 0 /\ cnt = <<>> /\ lists = <<>>
Last == v_k = Len(req.ells)
Adv(next) == IF Last THEN v_pc' = next /\ v_k' = 1 ELSE v_pc' = v_pc /\ v_k' = v_k + 1
FindBands == /\ v_pc = "bands"
             /\ LET m == IF Used(req, v_k) /\ req.bpws[v_k] > v_nb THEN req.bpws[v_k] ELSE v_nb
                IN  IF Last THEN v_nb' = m + 1 /\ cnt' = [b \in 1 .. m + 1 |-> 0] ELSE v_nb' = m /\ cnt' = cnt
             /\ Adv("count") /\ UNCHANGED <<req, lists>>
Count == /\ v_pc = "count"
         /\ cnt' = IF Used(req, v_k) THEN [cnt EXCEPT ![req.bpws[v_k] + 1] = @ + 1] ELSE cnt
         /\ lists' = IF Last THEN [b \in 1 .. v_nb |-> <<>>] ELSE lists
         /\ Adv("fill") /\ UNCHANGED <<req, v_nb>>
Fill == /\ v_pc = "fill"
        /\ lists' = IF Used(req, v_k) THEN [lists EXCEPT ![req.bpws[v_k] + 1] = Append(@, [l |-> req.ells[v_k], w |-> Q.ws[v_k], f |-> Positive(Q.fs[v_k])])] ELSE lists
        /\ Adv("norm") /\ UNCHANGED <<req, v_nb, cnt>>
Norm(b) == RSum(Eager([j \in 1 .. Len(lists[b]) |-> lists[b][j].w]))
Normalise == /\ v_pc = "norm"
             /\ IF \E b \in 1 .. v_nb : RLe(Norm(b), Zero)
                THEN v_pc' = "error" /\ lists' = lists
                ELSE /\ v_pc' = "done"
                     /\ lists' = [b \in 1 .. v_nb |-> [j \in 1 .. Len(lists[b]) |-> [lists[b][j] EXCEPT !.w = RDiv(@, Norm(b))]]]
             /\ UNCHANGED <<req, v_k, v_nb, cnt>>
Next == FindBands \/ Count \/ Fill \/ Normalise
Spec == Init /\ [][Next]_vars

Scheme == [lmax |-> req.lmax, bands |-> lists]
(* The list lengths never exceed what was counted (the C arrays are allocated from the counts). *)
NoOverflow  == v_pc \in {"fill", "norm", "done"} => \A b \in 1 .. v_nb : Len(lists[b]) <= cnt[b]
Refines     == /\ v_pc = "done"  => Creatable(Q) /\ Scheme = Create(Q)
               /\ v_pc = "error" => ~ Creatable(Q)
Partition   == v_pc = "done" => \A j \in 1 .. Len(req.ells) : Used(req, j) =>
                  \E b \in 1 .. v_nb : b = req.bpws[j] + 1 /\ \E i \in 1 .. Len(lists[b]) : lists[b][i].l = req.ells[j]
Normalised  == v_pc = "done" => \A b \in 1 .. v_nb : RSum(Weights(Scheme)[b]) = One
InRange     == v_pc = "done" => \A b \in 1 .. v_nb : \A j \in 1 .. Len(lists[b]) : lists[b][j].l \in 0 .. req.lmax
BP          == [b \in 1 .. v_nb |-> RInt(3 * b - 1)]
RightInverse == v_pc = "done" /\ Disjoint(Scheme) => BinOne(Scheme, UnbinOne(Scheme, BP)) = BP
EmitReq == Emit /\ v_pc \in {"done", "error"} => PrintT("@@BEH|" \o ToJson([req |-> req, ok |-> v_pc = "done"]))
================================================================================
