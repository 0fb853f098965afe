--------------------------- MODULE MC_Deletion ---------------------------
EXTENDS Deletion, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, h, dead
K(x) == [i \in 1..32 |-> x]
Ev(id, pk, kind, tags) == [id |-> K(id), pubkey |-> K(pk), kind |-> kind, tags |-> tags, content |-> <<>>]
Events == {Ev(1, 170, 1, <<>>), Ev(2, 187, 1, <<>>), Ev(3, 170, 30000, <<<<<<100>>, <<120>>>>>>), Ev(4, 187, 30000, <<<<<<100>>, <<120>>>>>>), Ev(5, 170, 30000, <<>>), Ev(6, 170, 5, <<>>), Ev(7, 170, 10000, <<>>)}
ETag(id) == <<<<101>>, HexOf(K(id))>>
ATag(kind, pk, d) == <<<<97>>, DecOf(SmallNum(kind)) \o <<58>> \o HexOf(K(pk)) \o <<58>> \o d>>
TagSets == {<<>>, <<ETag(1)>>, <<ETag(2), ETag(6)>>, <<ATag(30000, 170, <<120>>)>>, <<ATag(30000, 187, <<120>>), ETag(5)>>, <<ATag(30000, 170, <<>>)>>, <<ATag(10000, 170, <<>>)>>, <<<<<<101>>>>, ETag(3)>>, <<<<<<97>>, <<49, 58>>>>>>}
Requests == {[id |-> K(9), pubkey |-> K(pk), kind |-> k, tags |-> t, content |-> <<>>] : pk \in {170, 187}, k \in {5, 1}, t \in TagSets}
Honest(rq) == LET hs == SetToSeq(s) IN
    [o |-> "delete", rq |-> rq, isdel |-> rq.kind = 5, r |-> IF rq.kind = 5 THEN 0 ELSE 7,
     p |-> IF rq.kind = 5 THEN [ids |-> Ids(rq.tags), addresses |-> Addresses(rq.tags), pubkey |-> HexOf(rq.pubkey), reason |-> <<>>] ELSE [ids |-> <<>>, addresses |-> <<>>, pubkey |-> <<>>, reason |-> <<>>],
     held |-> [i \in 1..Len(hs) |-> [ev |-> hs[i], byid |-> ById(rq, hs[i]), byaddr |-> ByAddress(rq, hs[i])]]]
Init == s = {} /\ h = <<>> /\ dead = {}
Do(op) == \E t \in DExec(s, op) : s' = t /\ h' = Append(h, op) /\ dead' = {<<op.rq.pubkey, e.pubkey>> : e \in (IF op.o = "delete" THEN s \ t ELSE {})}
Next == Len(h) < Depth /\ ((\E e \in Events : e \notin s /\ Do([o |-> "publish", ev |-> e, rq |-> e])) \/ (\E rq \in Requests : Do(Honest(rq))))
\* nobody deletes another author's event
OwnOnly == \A x \in dead : x[1] = x[2]
View == <<s, Len(h)>>
Emit == (Len(h) = Depth) => CSVWrite("%1$s", <<ToJson([i \in 1..Len(h) |-> IF h[i].o = "publish" THEN [o |-> "publish", ev |-> h[i].ev] ELSE [o |-> "delete", ev |-> h[i].rq]])>>, IOEnv.GEN)
=============================================================================
