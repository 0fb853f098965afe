--------------------------- MODULE MC_RelayStore ---------------------------
(* Every order of arrival (with repetitions) of any of the events leaves    *)
(* the same store: exactly the newest event of every slot seen so far.      *)
EXTENDS RelayStore, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, seen, h
vars == <<s, seen, h>>
N(d) == [neg |-> FALSE, d |-> <<d>>]
E(k, at, id, au, tags) == [kind |-> k, at |-> at, id |-> <<id>>, author |-> au, tags |-> tags]
Events == {E(0, N(1), 1, "a", <<>>), E(0, N(1), 2, "a", <<>>), E(0, N(2), 3, "a", <<>>), E(0, N(2), 4, "b", <<>>),
           E(1, N(1), 5, "a", <<>>), E(30000, N(1), 6, "a", <<<<"d", "x">>>>), E(30000, N(1), 7, "a", <<<<"d", "x">>, <<"d", "y">>>>),
           E(30000, N(2), 8, "a", <<<<"d", "y">>>>), E(30000, N(1), 9, "a", <<<<"d">>>>), E(30000, N(1), 10, "a", <<>>),
           E(30001, N(1), 11, "a", <<<<"d", "x">>>>), E(20000, N(1), 12, "a", <<>>)}
Init == s = {} /\ seen = {} /\ h = <<>>
Next == Len(h) < Depth /\ \E e \in Events : s' = Store(s, e) /\ seen' = seen \cup {e} /\ h' = Append(h, [o |-> "arrive", ev |-> e])
Best == {e \in seen : KindType(e.kind) # "ephemeral" /\ \A x \in seen : SameSlot(x, e) /\ x # e => Newer(e, x)}
Convergent == s = Best
Order == \A a, b, c \in Events : /\ Cmp(a, b) = 0 - Cmp(b, a)
                                 /\ Cmp(a, b) = 1 /\ Cmp(b, c) = 1 => Cmp(a, c) = 1
                                 /\ Cmp(a, b) = 0 <=> a.at = b.at /\ a.id = b.id
\* the classification is total and constant between its break points
Classes == \A k \in -5..45000 : KindType(k) = KindType(CHOOSE b \in Breaks \cup {-1000} : b <= k /\ \A c \in Breaks : c <= k => c <= b)
ASSUME Classes
ASSUME Order
View == <<s, seen>>
Emit == Len(h) = Depth => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
=============================================================================
