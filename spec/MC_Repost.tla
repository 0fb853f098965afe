----------------------------- MODULE MC_Repost ------------------------------
EXTENDS Repost, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, h
I1 == [i \in 1..64 |-> 97]  I2 == [i \in 1..64 |-> 57]  BadId == [i \in 1..64 |-> 103]
Rs == {<<>>, <<119>>}
Names == {E, PP, K, Q}
Vals == {I1, I2, <<49>>, <<54, 53, 53, 51, 54>>, <<45, 49>>, <<>>}
Reposts == [o : {"repost"}, id : {I1, BadId}, pk : {I2}, relay : Rs, k : {0, 1, 7, 65535}, d : {<<>>, <<<<>>>>, <<<<58>>>>}, json : {<<>>, <<<<123>>>>}]
Reactions == [o : {"reaction"}, content : {<<>>, <<<<>>>>, <<<<45>>>>, <<<<33>>>>}, id : {I1, BadId}, pk : {I2}, relay : {<<>>, <<<<119>>>>}, k : {0, 1, 65535}]
Edits == [o : {"new"}, kind : {6, 7, 16, 1}] \cup [o : {"tag"}, v : {<<n>> : n \in Names} \cup {<<n, v>> : n \in Names, v \in Vals} \cup {<<E, I2, r>> : r \in Rs}] \cup [o : {"content"}, t : {<<43>>, <<45>>, <<>>, <<43, 43>>}]
Ask == [o |-> "parse"]
Calls == Edits \cup Reposts \cup Reactions
Fill(op) == IF op.o \in {"repost", "reaction"} THEN LET ok == IsId(op.id) IN op @@ [r |-> IF ok THEN 0 ELSE 11, null |-> ~ok, ev |-> IF ~ok THEN None ELSE IF op.o = "repost" THEN RepostOf(op) ELSE ReactionOf(op)] ELSE op
Init == s = None /\ h = <<>>
Next == Len(h) < Depth /\ \E op \in Calls : \E t \in Exec(s, Fill(op)) : s' = t /\ h' = Append(h, op)
\* what is created reads back as what was asked for
Sent == h # <<>> /\ h[Len(h)].o \in {"repost", "reaction"} /\ IsId(h[Len(h)].id)
RoundTrip == Sent => LET a == h[Len(h)] IN
    /\ LastOf(s, E) = a.id /\ LastOf(s, PP) = a.pk /\ Relay(s) = (IF a.o = "repost" THEN a.relay ELSE Opt(a.relay, <<>>))
    /\ KindIn(s, IF s.kind = 6 THEN 1 ELSE 0) = a.k
    /\ IF a.o = "repost" THEN s.kind = 6 <=> a.k = 1 ELSE s.kind = 7
NotBoth == s.kind = 7 => ~((s.content = <<>> \/ s.content = <<43>>) /\ s.content = <<45>>)
KindRange == KindIn(s, 0) \in 0..65535
View == <<s, IF h = <<>> THEN <<>> ELSE h[Len(h)]>>
Emit == Len(h) = Depth => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
=============================================================================
