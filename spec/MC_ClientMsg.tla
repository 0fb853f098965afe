--------------------------- MODULE MC_ClientMsg ---------------------------
EXTENDS ClientMsg, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, h
F0 == [ids |-> <<>>, authors |-> <<>>, kinds |-> <<>>, e |-> <<>>, p |-> <<>>, g |-> <<>>, since |-> SmallNum(0), until |-> SmallNum(0), limit |-> 0, search |-> ""]
Rep(x, n) == [i \in 1..n |-> x]
Subs == {<<97>>, <<32>>, <<126, 33>>, <<>>, <<31>>, <<127>>, <<97, 195, 169>>, Rep(120, 64), Rep(120, 65)}
FilterLists == {<<>>, <<F0>>, Rep(F0, 10), Rep(F0, 11), <<[F0 EXCEPT !.ids = <<"ab">>], [F0 EXCEPT !.kinds = <<1>>]>>, <<F0, [F0 EXCEPT !.authors = <<"AB">>]>>, <<[F0 EXCEPT !.e = <<"ab">>]>>}
Base(o, src) == [o |-> o, src |-> src]
Accept(o, src) == [o |-> o, src |-> src, r |-> 0, type |-> o, sub |-> src.sub, hasSub |-> TRUE, hasEvent |-> FALSE, got |-> src.filters]
Refuse(o, src) == [o |-> o, src |-> src, r |-> 1, type |-> "none", sub |-> <<>>, hasSub |-> FALSE, hasEvent |-> FALSE, got |-> <<>>]
Init == s = [x \in {} |-> 0] /\ h = <<>>
Step(op) == \E t \in CExec(s, op) : s' = t /\ h' = Append(h, op)
Srcs == [sub : Subs, filters : FilterLists]
Next == Len(h) < Depth /\ \E o \in {"REQ", "COUNT", "CLOSE"} : \E src \in (IF o = "CLOSE" THEN [sub : Subs, filters : {<<>>}] ELSE Srcs) : Step(Accept(o, src)) \/ Step(Refuse(o, src))
\* every message has exactly one outcome; only well-formed subscriptions are ever open
Decided == \A src \in Srcs : \A o \in {"REQ", "COUNT"} : (CExec(s, Accept(o, src)) = {}) # (CExec(s, Refuse(o, src)) = {})
OpenOk == \A x \in DOMAIN s : SubOk(x) /\ Len(s[x]) <= MaxFilters /\ \A i \in 1..Len(s[x]) : FilterOk(s[x][i])
View == <<s, Len(h)>>
Emit == (Len(h) = Depth) => CSVWrite("%1$s", <<ToJson([i \in 1..Len(h) |-> [o |-> h[i].o, src |-> h[i].src]])>>, IOEnv.GEN)
=============================================================================
