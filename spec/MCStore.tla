--------------------------------- MODULE MCStore ---------------------------------
(* Every short history of objects and files; each is replayed on the code. *)
EXTENDS Store, Sequences, TLC, Json

CONSTANTS NO, NF, NId, Depth, Mutant
VARIABLES kind, obj, file, origin, hist
vars == <<kind, obj, file, origin, hist>>
Full == <<kind, obj, file, origin>>

(* origin: for every object, the identities it could legitimately come from is exactly one: the last one made or read *)
Init == /\ kind \in {"curved", "plain"}
        /\ obj = [k \in 1 .. NO |-> Nothing]
        /\ file = [k \in 1 .. NF |-> Nothing]
        /\ origin = [o |-> [k \in 1 .. NO |-> 0], f |-> [k \in 1 .. NF |-> 0]]
        /\ hist = <<>>
Log(x) == hist' = Append(hist, x)
Put(k, x) == obj' = [obj EXCEPT ![k] = x] /\ UNCHANGED file
Make(k, i, p) == /\ Log([op |-> "Make", k |-> k, id |-> i, part |-> IF p THEN 1 ELSE 0])
                 /\ (kind = "curved" => ~ p)
                 /\ Put(k, Object(i, ~ p)) /\ origin' = [origin EXCEPT !.o[k] = i]
Write(k, f) == /\ Log([op |-> "Write", k |-> k, f |-> f])
               /\ IF CanWrite(kind, obj[k]) THEN file' = [file EXCEPT ![f] = IF Mutant = "keep" /\ There(@) THEN @ ELSE obj[k]] /\ origin' = [origin EXCEPT !.f[f] = origin.o[k]] /\ UNCHANGED obj
                  ELSE UNCHANGED <<obj, file, origin>>
Load(k, f, w) == /\ Log([op |-> "Load", k |-> k, f |-> f, want |-> IF w THEN 1 ELSE 0])
                 /\ IF CanLoad(file[f]) THEN Put(k, Loaded(file[f], w)) /\ origin' = [origin EXCEPT !.o[k] = origin.f[f]]
                    ELSE UNCHANGED <<obj, file, origin>>
Update(k) == /\ kind = "curved"
             /\ Log([op |-> "Update", k |-> k])
             /\ IF CanUpdate(kind, obj[k]) THEN Put(k, Object(NId + obj[k].id - (IF obj[k].id > NId THEN NId ELSE 0), TRUE)) /\ origin' = [origin EXCEPT !.o[k] = IF @ > NId THEN @ ELSE NId + @]
                ELSE UNCHANGED <<obj, file, origin>>
Next == /\ Len(hist) < Depth
        /\ UNCHANGED kind
        /\ \E k \in 1 .. NO :
              \/ \E i \in 1 .. NId, p \in BOOLEAN : Make(k, i, p)
              \/ \E f \in 1 .. NF : Write(k, f) \/ \E w \in BOOLEAN : Load(k, f, w)
              \/ Update(k)
        /\ PrintT("@@BEH|" \o ToJson([kind |-> kind, h |-> hist']))
Spec == Init /\ [][Next]_vars

AsMade == /\ \A k \in 1 .. NO : obj[k].id = origin.o[k]
          /\ \A f \in 1 .. NF : file[f].id = origin.f[f]
WholeFiles == kind = "curved" => \A f \in 1 .. NF : There(file[f]) => file[f].full
==================================================================================
