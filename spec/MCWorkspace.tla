------------------------------- MODULE MCWorkspace -------------------------------
(***************************************************************************)
(* Two workspaces and a file under every order of public requests, valid   *)
(* and invalid.  As in the code, a workspace caches the binned system,     *)
(* which each operation refreshes from what the workspace then holds; the  *)
(* ghost variable remembers which ingredients were last put in place.      *)
(* Every transition is emitted as a history for replay on the code.        *)
(***************************************************************************)
EXTENDS Workspace, TLC, Json

CONSTANTS NW, NFiles, NBeams, NBinsets, Depth, Emit, Mutant

VARIABLES ws,      \* contents, with the cached binned system B
          file,    \* contents of the file
          ghost,   \* ingredients of every workspace and of the file (index 0)
          hist
vars == <<ws, file, ghost, hist>>
Full == <<ws, file, ghost>>

Nn == 2
Lm == 2
Mat(k) == [i \in 1 .. Nn * (Lm + 1) |-> [j \in 1 .. Nn * (Lm + 1) |->
             CASE k = 1 -> RInt(IF i = j THEN 7 + i ELSE IF ((i + 2 * j) % 5) = 0 THEN 1 ELSE 0)
               [] k = 2 -> RInt(IF i = j THEN 9 - i ELSE IF ((3 * i + j) % 4) = 0 THEN -1 ELSE 0)
               [] k = 3 -> RFrac(IF i = j THEN 5 ELSE ((i * j) % 3), 2)]]
Beam(k) == [l \in 1 .. Lm + 1 |-> RFrac(k + l, l + 1)]
Scheme(k) == CASE k = 1 -> Create([lmax |-> 2, ells |-> <<0, 1, 2>>, bpws |-> <<0, 0, 1>>, ws |-> <<RInt(1), RInt(2), RInt(1)>>, fs |-> <<RInt(1), RInt(3), RInt(2)>>])
               [] k = 2 -> Create([lmax |-> 2, ells |-> <<1, 0, 1, 2>>, bpws |-> <<1, 0, 0, 1>>, ws |-> <<RInt(1), RInt(2), RInt(1), RInt(5)>>, fs |-> <<RInt(1), RInt(1), RInt(1), RInt(4)>>])   \* bands overlap
               [] k = 3 -> Create([lmax |-> 2, ells |-> <<2>>, bpws |-> <<0>>, ws |-> <<RInt(1)>>, fs |-> <<RInt(1)>>])
W2(k) == RFrac(k, 3)

(* A pair of fields: matrix, beams, normalisation. *)
Pair(k) == IF k = 1 THEN [m |-> 1, b |-> 1, norm |-> "MASTER", w2 |-> 0] ELSE [m |-> 2, b |-> 1, norm |-> "FKP", w2 |-> 2]
Contents(g) == Build(Nn, Lm, Mat(g.m), Beam(g.b), Scheme(g.s), g.norm, IF g.norm = "FKP" THEN W2(g.w2) ELSE Zero)
Nothing == [m |-> 0]
Cached(w) == [w |-> w, B |-> IF w.ok THEN Binned(w) ELSE <<>>]

Init == /\ ws = [i \in 1 .. NW |-> Cached(None)]
        /\ file = None
        /\ ghost = [i \in 0 .. NW |-> Nothing]
        /\ hist = <<>>

Log(x) == hist' = Append(hist, x)
Keep(i) == UNCHANGED <<ws, file, ghost>>
Put(i, w, g) == ws' = [ws EXCEPT ![i] = Cached(w)] /\ ghost' = [ghost EXCEPT ![i] = g] /\ UNCHANGED file

Compute(i, p, s) == /\ Log([op |-> "Compute", w |-> i, pair |-> p, bins |-> s])
                    /\ LET g == [m |-> Pair(p).m, b |-> Pair(p).b, s |-> s, norm |-> Pair(p).norm, w2 |-> Pair(p).w2] IN Put(i, Contents(g), g)
BadCompute(i, k) == Log([op |-> "BadCompute", w |-> i, k |-> k]) /\ Keep(i)
DoBeams(i, b)    == /\ Log([op |-> "Beams", w |-> i, b |-> b])
                    /\ IF CanSetBeams(ws[i].w, Lm + 1, Lm + 1) THEN Put(i, SetBeams(ws[i].w, Beam(b)), [ghost[i] EXCEPT !.b = b]) ELSE Keep(i)
ShortBeams(i)    == Log([op |-> "ShortBeams", w |-> i]) /\ Keep(i)
DoBins(i, s)     == /\ Log([op |-> "Bins", w |-> i, s |-> s])
                    /\ IF CanSetBins(ws[i].w, Scheme(s)) THEN Put(i, SetBins(ws[i].w, Scheme(s)), [ghost[i] EXCEPT !.s = s]) ELSE Keep(i)
BadBins(i)       == Log([op |-> "BadBins", w |-> i]) /\ Keep(i)
DoMatrix(i)      == /\ Log([op |-> "Matrix", w |-> i])
                    /\ IF CanSetMatrix(ws[i].w, Nn * (Lm + 1))
                       THEN IF Mutant = "stale" THEN ws' = [ws EXCEPT ![i].w = SetMatrix(@, Mat(3))] /\ ghost' = [ghost EXCEPT ![i].m = 3] /\ UNCHANGED file
                            ELSE Put(i, SetMatrix(ws[i].w, Mat(3)), [ghost[i] EXCEPT !.m = 3])
                       ELSE Keep(i)
BadMatrix(i)     == Log([op |-> "BadMatrix", w |-> i]) /\ Keep(i)
Write(i)         == /\ Log([op |-> "Write", w |-> i])
                    /\ IF CanWrite(ws[i].w) THEN file' = ws[i].w /\ ghost' = [ghost EXCEPT ![0] = ghost[i]] /\ UNCHANGED ws ELSE Keep(i)
Read(i, unb)     == /\ Log([op |-> "Load", w |-> i, unb |-> unb])
                    /\ IF file.ok THEN Put(i, Loaded(file, unb = 1), ghost[0]) ELSE Keep(i)
Next == /\ Len(hist) < Depth
        /\ \E i \in 1 .. NW :
              \/ \E p \in {1, 2}, s \in 1 .. NBinsets : Compute(i, p, s)
              \/ \E k \in 1 .. 2 : BadCompute(i, k)
              \/ \E b \in 2 .. NBeams : DoBeams(i, b)
              \/ \E s \in 1 .. NBinsets : DoBins(i, s)
              \/ ShortBeams(i) \/ BadBins(i) \/ BadMatrix(i) \/ DoMatrix(i)
              \/ (NFiles > 0 /\ (Write(i) \/ \E u \in {0, 1} : Read(i, u)))
        /\ (Emit => PrintT("@@BEH|" \o ToJson(hist')))
Spec == Init /\ [][Next]_vars

Live(i) == ws[i].w.ok
(* The workspace is the one that its ingredients make, and the cached system is the one it needs. *)
FromIngredients == \A i \in 1 .. NW : Live(i) =>
   LET c == Contents(ghost[i]) IN ws[i].w = [c EXCEPT !.unb = ws[i].w.unb] /\ ws[i].B = Binned(c)
FileIsAWorkspace == file.ok => file = Contents(ghost[0])
(* Public identities, for every spectrum (they are linear: unit spectra suffice). *)
Units == [k \in 1 .. Nn * (Lm + 1) |-> Unflatten(Nn, [j \in 1 .. Nn * (Lm + 1) |-> IF j = k THEN One ELSE Zero])]
Identities == \A i \in 1 .. NW : Live(i) /\ ws[i].w.unb => LET r == ws[i].w IN
   /\ \A k \in 1 .. Len(Units) : RMatVec(Windows(r), Flatten(Nn, Lm + 1, Units[k])) = Decouple(r, Couple(r, Units[k]))
   /\ (r.norm = "MASTER" /\ Disjoint(r.bins)) => \A q \in 1 .. Nn * NB(r.bins) :
          LET x == [j \in 1 .. Nn * NB(r.bins) |-> IF j = q THEN One ELSE Zero]
              bp == Unflatten(Nn, x)
              cl == [a \in 1 .. Nn |-> UnbinOne(r.bins, bp[a])]
          IN  Decouple(r, Couple(r, cl)) = x
==================================================================================
