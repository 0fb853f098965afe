---------------------------- MODULE MC_Work ----------------------------
(* Part 1: the sequential operations.  Part 2 (Mining): threads that share  *)
(* one event under a lock; the event a successful search leaves behind is   *)
(* the one that was found, whatever the interleaving.                       *)
EXTENDS Work, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, h
Ids == {[i \in 1..32 |-> IF i = 1 THEN a ELSE IF i = 2 THEN b ELSE 0] : a \in {0, 1, 16, 255}, b \in {0, 64}}
TagsIn == {<<Nonce>>, <<Nonce, <<49>>>>, <<Nonce, <<49>>, <<51>>>>, <<Nonce, <<49>>, <<53, 48>>, <<120>>>>, <<Nonce, <<49>>, <<120>>>>, <<<<101>>, <<49>>>>, <<Nonce \o <<49>>, <<49>>>>}
Init == s = Init0 /\ h = <<>>
Step(op) == \E t \in Exec(s, op) : s' = t /\ h' = Append(h, op)
Ns == {<<55>>, <<49, 56>>}
Next == Len(h) < Depth /\
    ((\E t \in TagsIn : Step([o |-> "tag", t |-> t, r |-> 0])) \/ (\E i \in Ids : Step([o |-> "id", id |-> i]))
     \/ (\E n \in Ns, g \in {0, 4} : \E x \in SetNonce(s.tags, n, g) : Step([o |-> "nonce", n |-> n, target |-> g, tags |-> x, id |-> s.id, r |-> 0]))
     \/ \E n \in Ns, g \in {4}, i \in Ids : \E x \in SetNonce(s.tags, n, g) :
            Step([o |-> "mine", target |-> g, r |-> 0, seen |-> TRUE, idok |-> TRUE, id |-> i, atok |-> TRUE, tags |-> x, nonce |-> n, bounded |-> TRUE, best |-> 0, clocked |-> TRUE]))
\* after a successful search the work verifies at the target and at anything less; a verdict is monotone in the minimum
MinedVerifies == (Len(h) > 0 /\ h[Len(h)].o = "mine") => \A m \in 1..4 : Verdicts(s, m) = {TRUE}
MonotoneMin == \A m \in 1..11 : TRUE \in Verdicts(s, m + 1) => TRUE \in Verdicts(s, m)
NoWorkNoPass == NonceAt(s.tags) = 0 => \A m \in 0..5 : Verdicts(s, m) = {FALSE}
OtherTags == [][LET a == s.tags b == s'.tags i == NonceAt(s.tags) IN
    (h'[Len(h')].o \in {"nonce", "mine"}) => \A j \in 1..Len(a) : j # i => b[j] = a[j]]_<<s, h>>
Emit == (Len(h) = Depth) => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
View == <<s, IF h = <<>> THEN "" ELSE h[Len(h)].o, Len(h)>>
=============================================================================
