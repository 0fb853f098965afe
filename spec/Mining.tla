-------------------------------- MODULE Mining --------------------------------
(* P14.  The threaded search: N threads try nonces i, i+S, i+2S, ... on one   *)
(* shared event, each under the lock, until one finds a good nonce (or the    *)
(* budget is used up).  ev is the nonce the shared event carries.             *)
EXTENDS Integers, FiniteSets
CONSTANTS N, Stride, Budget, Good, CheckUnderLock
VARIABLES pc, nonce, iter, found, ev, lock, hit
vars == <<pc, nonce, iter, found, ev, lock, hit>>
T == 1..N
Init == /\ pc = [t \in T |-> "top"] /\ nonce = [t \in T |-> t - 1] /\ iter = [t \in T |-> 0]
        /\ found = FALSE /\ ev = 0 /\ lock = 0 /\ hit = {}
Top(t) == pc[t] = "top" /\ pc' = [pc EXCEPT ![t] = IF iter[t] < Budget /\ (CheckUnderLock \/ ~found) THEN "want" ELSE "done"] /\ UNCHANGED <<nonce, iter, found, ev, lock, hit>>
Acquire(t) == pc[t] = "want" /\ lock = 0 /\ lock' = t /\ pc' = [pc EXCEPT ![t] = IF CheckUnderLock /\ found THEN "leave" ELSE "try"] /\ UNCHANGED <<nonce, iter, found, ev, hit>>
Try(t) == /\ pc[t] = "try" /\ ev' = nonce[t]
          /\ IF nonce[t] \in Good THEN found' = TRUE /\ hit' = hit \cup {nonce[t]} /\ pc' = [pc EXCEPT ![t] = "leave"] /\ UNCHANGED <<nonce, iter>>
             ELSE found' = found /\ hit' = hit /\ pc' = [pc EXCEPT ![t] = "again"] /\ nonce' = [nonce EXCEPT ![t] = @ + Stride] /\ iter' = [iter EXCEPT ![t] = @ + 1]
          /\ UNCHANGED lock
Release(t) == pc[t] \in {"leave", "again"} /\ lock = t /\ lock' = 0 /\ pc' = [pc EXCEPT ![t] = IF pc[t] = "again" THEN "top" ELSE "done"] /\ UNCHANGED <<nonce, iter, found, ev, hit>>
Next == (\E t \in T : Top(t) \/ Acquire(t) \/ Try(t) \/ Release(t)) \/ ((\A t \in T : pc[t] = "done") /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Top(t) \/ Try(t) \/ Release(t)) /\ SF_vars(Acquire(t))
Done == \A t \in T : pc[t] = "done"
\* what is left behind is what was found; found work is never overwritten; all the budget was spent before giving up
Sound == Done /\ hit # {} => ev \in hit
Stable == [][found => (ev' = ev /\ hit' = hit)]_vars
Complete == Done /\ hit = {} => \A t \in T : \A k \in 0..(Budget - 1) : (t - 1 + k * Stride) \notin Good
Exclusive == Cardinality({t \in T : pc[t] \in {"try", "leave", "again"}}) <= 1
Terminates == <>Done
=============================================================================
