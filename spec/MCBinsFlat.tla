------------------------------- MODULE MCBinsFlat -------------------------------
(***************************************************************************)
(* The incremental band search: the cursor left by one multipole is where  *)
(* the search for the next one starts.  One comparison per step, explored  *)
(* for every band layout and every request sequence within the constants;  *)
(* the answer must depend on the multipole only.                           *)
(***************************************************************************)
EXTENDS BinsFlat, TLC, Json
CONSTANTS Top, MaxBands, MaxReq, Emit

VARIABLES lay, v_pc, cur, v_l, v_n, ans
vars == <<lay, v_pc, cur, v_l, v_n, ans>>

Layouts == {f \in UNION {[1 .. k -> (0 .. Top) \X (0 .. Top)] : k \in 1 .. MaxBands} :
              /\ \A b \in DOMAIN f : f[b][1] < f[b][2]
              /\ \A b \in DOMAIN f : b + 1 \in DOMAIN f => f[b][2] <= f[b + 1][1]}
S  == [l0 |-> [b \in DOMAIN lay |-> RInt(lay[b][1])], lf |-> [b \in DOMAIN lay |-> RInt(lay[b][2])]]
NBnd == Len(lay)
Init == lay \in Layouts /\ v_pc = "idle" /\ cur = 1 /\ v_l = 0 /\ v_n = 0 /\ ans = 0
Ask == /\ v_pc = "idle" /\ v_n < MaxReq
       /\ \E x \in 0 .. Top : v_l' = x
       /\ v_n' = v_n + 1
       /\ cur' = IF cur = 0 THEN 1 ELSE cur                    \* the last search failed: restart from the first band
       /\ v_pc' = "look" /\ UNCHANGED <<lay, ans>>
Done(b) == v_pc' = "idle" /\ ans' = b /\ cur' = b /\ UNCHANGED <<lay, v_l, v_n>>
Look == /\ v_pc = "look"
        /\ IF v_l < lay[cur][1] THEN v_pc' = "back" /\ cur' = cur - 1 /\ UNCHANGED <<lay, v_l, v_n, ans>>
           ELSE IF v_l >= lay[cur][2] THEN v_pc' = "forth" /\ cur' = cur + 1 /\ UNCHANGED <<lay, v_l, v_n, ans>>
           ELSE Done(cur)
Back == /\ v_pc = "back"
        /\ IF cur = 0 THEN Done(0)
           ELSE IF v_l < lay[cur][1] THEN cur' = cur - 1 /\ UNCHANGED <<lay, v_pc, v_l, v_n, ans>>
           ELSE Done(IF v_l < lay[cur][2] THEN cur ELSE 0)
Forth == /\ v_pc = "forth"
         /\ IF cur > NBnd THEN Done(0)
            ELSE IF v_l >= lay[cur][2] THEN cur' = cur + 1 /\ UNCHANGED <<lay, v_pc, v_l, v_n, ans>>
            ELSE Done(IF v_l >= lay[cur][1] THEN cur ELSE 0)
Next == Ask \/ Look \/ Back \/ Forth
Spec == Init /\ [][Next]_vars
LayoutsOrdered == Ordered(S)
OnlyTheMultipole == v_pc = "idle" /\ v_n > 0 => ans = BandOf(S, RInt(v_l))
CursorInRange == v_pc = "look" => cur \in 1 .. NBnd
EmitLayout == Emit /\ v_n = 0 => PrintT("@@BEH|" \o ToJson([lay |-> lay]))
================================================================================
