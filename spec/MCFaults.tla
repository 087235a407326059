-------------------------------- MODULE MCFaults --------------------------------
(* The steps inside a call against its effect at once; histories of uses, changes and faults for the replay. *)
EXTENDS Faults, Sequences, TLC, Json

CONSTANTS NParts, NArgs, NItems, Depth, Mutant
VARIABLES obj, side, twin, req, step, version, verdict, hist
vars == <<obj, side, twin, req, step, version, verdict, hist>>
Parts == 1 .. NParts
Gone == -1
Idle == step = 0

Init == /\ obj = [p \in Parts |-> 0] /\ side = obj /\ twin = obj
        /\ req = [touch |-> {}, bad |-> 0, breaks |-> FALSE]
        /\ step = 0 /\ version = 0 /\ verdict = "none" /\ hist = <<>>

Log(t) == /\ Len(hist) < Depth
          /\ \E k \in 1 .. NItems : hist' = Append(hist, [t |-> t, k |-> k])

Call == /\ Idle
        /\ \E r \in Requests(Parts, NArgs) :
              /\ r.touch # {}
              /\ req' = r /\ step' = 1 /\ side' = obj /\ version' = version + 1
              /\ twin' = Effect(twin, r, version + 1)
              /\ Log(IF Good(r) THEN "C" ELSE "F")
        /\ verdict' = "none" /\ UNCHANGED obj
Use == /\ Idle /\ Log("U") /\ (Len(hist') = Depth => PrintT("@@BEH|" \o ToJson(hist'))) /\ UNCHANGED <<obj, side, twin, req, step, version, verdict>>

Rest == <<twin, req, version, hist>>
Refuse == step' = 0 /\ verdict' = "refused"
Last(k) == CHOOSE p \in Parts : p = ((k - 1) % NParts) + 1
(* arguments one by one *)
Check == /\ step \in 1 .. NArgs
         /\ IF req.bad = step /\ ~ (Mutant = "blind" /\ step = NArgs)
            THEN Refuse /\ UNCHANGED <<obj, side>>
            ELSE /\ step' = step + 1 /\ verdict' = verdict /\ side' = side
                 /\ obj' = IF Mutant = "early" /\ Last(step) \in req.touch THEN [obj EXCEPT ![Last(step)] = version] ELSE obj
         /\ UNCHANGED Rest
(* the new parts, on the side *)
Make == /\ step = NArgs + 1
        /\ IF req.breaks THEN Refuse /\ side' = side ELSE step' = step + 1 /\ verdict' = verdict /\ side' = [p \in Parts |-> IF p \in req.touch THEN version ELSE obj[p]]
        /\ obj' = IF Mutant = "free" THEN [p \in Parts |-> IF p \in req.touch THEN Gone ELSE obj[p]] ELSE obj
        /\ UNCHANGED Rest
Replace == /\ step = NArgs + 2
           /\ obj' = side /\ step' = 0 /\ verdict' = "done" /\ UNCHANGED side
           /\ UNCHANGED Rest

Next == \/ Call \/ Check \/ Make \/ Replace \/ Use
Spec == Init /\ [][Next]_vars /\ WF_vars(Check \/ Make \/ Replace)

AsIfNever == Idle => Answer(obj) = Answer(twin)
Refused == verdict # "none" => (verdict = "done" <=> Good(req))
NothingGone == Idle => \A p \in Parts : obj[p] # Gone
Answered == ~ Idle ~> Idle
=================================================================================
