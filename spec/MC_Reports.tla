----------------------------- MODULE MC_Reports -----------------------------
(* Two threads ask for the list of features for the first time.  Lazily:     *)
(* the list is put together piece by piece in one shared buffer and a flag   *)
(* says that it is there (as the library once did).  Ready: the text is      *)
(* there from the start.  Whole says that every caller is given the whole    *)
(* list; it fails for Lazy (see MC_Reports_lazy.cfg) and holds for Ready.    *)
EXTENDS Reports
CONSTANTS Lazy, Pieces
VARIABLES pc, at, buf, flag, got
vars == <<pc, at, buf, flag, got>>
Threads == {1, 2}
All == Pieces                \* the text as its number of pieces: a buffer of k pieces is a text ended after k
Init == pc = [t \in Threads |-> "ask"] /\ at = [t \in Threads |-> 0] /\ buf = (IF Lazy THEN 0 ELSE All) /\ flag = ~Lazy /\ got = [t \in Threads |-> -1]
Ask(t) == pc[t] = "ask" /\ pc' = [pc EXCEPT ![t] = IF flag THEN "read" ELSE "write"] /\ UNCHANGED <<at, buf, flag, got>>
Write(t) == /\ pc[t] = "write" /\ at' = [at EXCEPT ![t] = @ + 1] /\ buf' = at[t] + 1          \* appends at its own place and ends the text there
            /\ pc' = [pc EXCEPT ![t] = IF at[t] + 1 = All THEN "set" ELSE "write"] /\ UNCHANGED <<flag, got>>
Set(t) == pc[t] = "set" /\ flag' = TRUE /\ pc' = [pc EXCEPT ![t] = "read"] /\ UNCHANGED <<at, buf, got>>
Read(t) == pc[t] = "read" /\ got' = [got EXCEPT ![t] = buf] /\ pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<at, buf, flag>>
Next == \E t \in Threads : Ask(t) \/ Write(t) \/ Set(t) \/ Read(t)
Whole == \A t \in Threads : pc[t] = "done" => got[t] = All
\* the naming and the texts: different builds are told apart, a reason is read back in one way only
Sets == SUBSET {4, 5, 18, 26, 44}
Distinct == \A a, b \in Sets : Names([Start EXCEPT !.nips = a]) = Names([Start EXCEPT !.nips = b]) => a = b
Named == \A m, n \in Optional : NipName[m] = NipName[n] => m = n
T == {<<>>, <<97>>, <<97, 98>>}
Reasons == \A m, f \in T : \A z \in 0..26 : \E r \in 0..40 : \E out \in {Reason(m, f), SubSeq(Reason(m, f), 1, IF z - 1 < Len(Reason(m, f)) THEN z - 1 ELSE 0), <<>>} : Written(Reason(m, f), z, r, out)
NeverCut == \A m, f \in T : \A z \in 1..26 : \A out \in {SubSeq(Reason(m, f), 1, k) : k \in 0..Len(Reason(m, f)) - 1} : ~Written(Reason(m, f), z, Len(out), out) \/ Len(out) = 0
Own == LET said == <<<<1, <<97>>>>, <<2, <<98>>>>, <<77, <<99>>>>>> IN /\ Says(said, 1, <<97>>, 0..12) /\ ~Says(said, 1, <<98>>, 0..12) /\ ~Says(said, 3, <<97>>, 0..12)
       /\ ~Says(said, 3, <<99>>, 0..12) /\ Says(said, 78, <<99>>, 0..12) /\ ~Says(said, 78, <<98>>, 0..12) /\ ~Says(said, 3, <<>>, 0..12)
ASSUME Distinct
ASSUME Named
ASSUME Reasons
ASSUME NeverCut
ASSUME Own
=============================================================================
