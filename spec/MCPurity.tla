--------------------------------- MODULE MCPurity ---------------------------------
(***************************************************************************)
(* Every order of constructions, changes to the caller's arrays and to the *)
(* defaults, and requests.  As in the code, a full field keeps the mask's  *)
(* multipoles once it has computed them.  The invariants say that a kept   *)
(* or computed answer is the one that a fresh field would give.            *)
(***************************************************************************)
EXTENDS Purity, TLC, Json
CONSTANTS NObj, NSrc, Depth, Emit, Mutant
VARIABLES ver, def, obj, cache, last, hist
vars == <<ver, def, obj, cache, last, hist>>
Full == <<ver, def, obj, cache, last>>
Init == ver = [k \in 1 .. NSrc |-> 1] /\ def = 1 /\ obj = [o \in 1 .. NObj |-> Absent] /\ cache = [o \in 1 .. NObj |-> <<>>] /\ last = <<>> /\ hist = <<>>
Log(x) == hist' = Append(hist, x)
(* what the code would read when asked about field o *)
Reads(o) == IF Mutant = "alias" THEN <<obj[o].src, ver[obj[o].src], obj[o].def>>
            ELSE IF Mutant = "late" THEN <<obj[o].src, obj[o].ver, def>> ELSE Snap(obj[o])
Answer(o) == IF cache[o] # <<>> THEN cache[o] ELSE Reads(o)
Make(o, k, lite) == /\ Log([op |-> "Make", o |-> o, src |-> k, lite |-> lite])
                    /\ obj' = [obj EXCEPT ![o] = Made(k, ver[k], def, lite)] /\ cache' = [cache EXCEPT ![o] = <<>>] /\ last' = <<>> /\ UNCHANGED <<ver, def>>
Mutate(k) == Log([op |-> "Mutate", src |-> k]) /\ ver' = [ver EXCEPT ![k] = 3 - @] /\ last' = <<>> /\ UNCHANGED <<def, obj, cache>>
Default   == Log([op |-> "Default"]) /\ def' = 3 - def /\ last' = <<>> /\ UNCHANGED <<ver, obj, cache>>
Keep(os)  == cache' = [o \in 1 .. NObj |-> IF o \in os /\ obj[o].lite = 0 THEN Answer(o) ELSE cache[o]]
One(o)    == /\ obj[o].made /\ Log([op |-> "One", o |-> o]) /\ Keep({o}) /\ last' = <<<<o, Answer(o)>>>> /\ UNCHANGED <<ver, def, obj>>
Two(x, y) == /\ obj[x].made /\ obj[y].made /\ Log([op |-> "Two", x |-> x, y |-> y])
             /\ Keep({x, y}) /\ last' = <<<<x, Answer(x)>>, <<y, Answer(y)>>>> /\ UNCHANGED <<ver, def, obj>>
Next == /\ Len(hist) < Depth
        /\ \/ \E o \in 1 .. NObj, k \in 1 .. NSrc, l \in {0, 1} : Make(o, k, l)
           \/ \E k \in 1 .. NSrc : Mutate(k)
           \/ Default
           \/ \E o \in 1 .. NObj : One(o)
           \/ \E x \in 1 .. NObj, y \in 1 .. NObj : Two(x, y)
        /\ (Emit => PrintT("@@BEH|" \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
CachesAreFresh  == \A o \in 1 .. NObj : cache[o] # <<>> => cache[o] = Snap(obj[o])
AnswersAreFresh == \A j \in 1 .. Len(last) : last[j][2] = Snap(obj[last[j][1]])
===================================================================================
