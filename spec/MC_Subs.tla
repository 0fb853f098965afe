------------------------------ MODULE MC_Subs ------------------------------
EXTENDS Subs, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, h
N(d) == [neg |-> FALSE, d |-> <<d>>]
F0 == [ids |-> <<>>, authors |-> <<>>, kinds |-> <<>>, e |-> <<>>, p |-> <<>>, g |-> <<>>, since |-> N(0), until |-> N(0), limit |-> 0, search |-> ""]
Ev(id, pk, k, at, tags) == [id |-> id, pubkey |-> pk, kind |-> k, at |-> N(at), tags |-> tags]
Events == {Ev(i, p, k, a, t) : i \in {"ab", "ac"}, p \in {"aa", "b0"}, k \in {1, 2}, a \in {0, 5}, t \in {<<>>, <<<<"e", "ab">>>>, <<<<"t">>, <<"t", "x">>>>, <<<<"p", "x">>, <<"t", "y", "x">>>>}}
Filters == {F0, [F0 EXCEPT !.ids = <<"a">>], [F0 EXCEPT !.ids = <<"ac", "b">>, !.kinds = <<2>>], [F0 EXCEPT !.authors = <<"aa">>, !.since = N(5)],
            [F0 EXCEPT !.until = N(4), !.kinds = <<1, 2>>], [F0 EXCEPT !.g = <<[n |-> "t", v |-> <<"x">>]>>], [F0 EXCEPT !.e = <<"ab">>, !.p = <<"x">>],
            [F0 EXCEPT !.p = <<"x">>], [F0 EXCEPT !.g = <<[n |-> "t", v |-> <<"y", "z">>], [n |-> "T", v |-> <<"x">>]>>]}
Init == s = [x \in {} |-> 0] /\ h = <<>>
Subset2 == {<<f>> : f \in Filters} \cup {<<f, g>> : f, g \in {F0, CHOOSE q \in Filters : q # F0}} \cup {<<>>}
Deliver(ev) == {x \in DOMAIN s : \E i \in 1..Len(s[x]) : Cond(s[x][i], ev)}
Next == /\ Len(h) < Depth
        /\ \/ \E x \in {"1", "2"}, fs \in Subset2 : LET op == [o |-> "req", sub |-> x, filters |-> fs, r |-> 0] IN \E t \in Exec(s, op) : s' = t /\ h' = Append(h, op)
           \/ \E x \in {"1", "2"} : LET op == [o |-> "close", sub |-> x, r |-> 0] IN \E t \in Exec(s, op) : s' = t /\ h' = Append(h, op)
           \/ \E ev \in Events : LET op == [o |-> "event", ev |-> ev, to |-> SetToSeq(Deliver(ev))] IN \E t \in Exec(s, op) : s' = t /\ h' = Append(h, op)
\* the delivery is always explained by the specification, a wider filter never loses events, an empty list delivers nothing
Explained == \A ev \in Events : Exec(s, [o |-> "event", ev |-> ev, to |-> SetToSeq(Deliver(ev))]) # {}
Exact == \A ev \in Events : \A x \in DOMAIN s : Exec(s, [o |-> "event", ev |-> ev, to |-> SetToSeq((Deliver(ev) \ {x}) \cup ({x} \ Deliver(ev)))]) = {}
Narrow == \A f \in Filters, ev \in Events : /\ Cond(f, ev) => Cond(F0, ev)
                                            /\ Cond([f EXCEPT !.kinds = <<1>>], ev) => Cond([f EXCEPT !.kinds = <<>>], ev) /\ ev.kind = 1
Nothing == \A x \in DOMAIN s : s[x] = <<>> => \A ev \in Events : x \notin Deliver(ev)
ASSUME Narrow
View == <<s, IF h # <<>> /\ h[Len(h)].o = "event" THEN 1 ELSE 0>>
Emit == Len(h) = Depth => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
=============================================================================
