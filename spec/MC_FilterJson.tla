--------------------------- MODULE MC_FilterJson ---------------------------
EXTENDS FilterJson, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, h, made
N(d) == [neg |-> FALSE, d |-> <<d>>]
F0 == [ids |-> <<>>, authors |-> <<>>, kinds |-> <<>>, e |-> <<>>, p |-> <<>>, g |-> <<>>, since |-> N(0), until |-> N(0), limit |-> 0, search |-> ""]
Filters == {F0, [F0 EXCEPT !.ids = <<"a", "A">>], [F0 EXCEPT !.kinds = <<1, 1>>, !.g = <<[n |-> "t", v |-> <<"x">>]>>], [F0 EXCEPT !.search = "q", !.since = N(3), !.limit = 5]}
Hs == {"1", "2", "3"}
Init == s = [x \in {} |-> 0] /\ h = <<>> /\ made = <<>>
Step(op) == \E t \in Exec(s, op) : s' = t /\ h' = Append(h, op)
Next == /\ Len(h) < Depth
        /\ \/ \E x \in Hs \ DOMAIN s, f \in Filters : Step([o |-> "parse", h |-> x, src |-> f, f |-> f, r |-> 0]) /\ made' = Append(made, f)
           \/ \E x \in DOMAIN s, y \in Hs \ DOMAIN s : Step([o |-> "clone", h |-> x, h2 |-> y, f |-> s[x], r |-> 0]) /\ made' = made
           \/ \E x \in DOMAIN s : Step([o |-> "free", h |-> x, f |-> F0]) /\ made' = made
           \/ \E x \in DOMAIN s : Step([o |-> "read", h |-> x, f |-> s[x]]) /\ made' = made
\* every live filter is one that was parsed; a cloned filter outlives its source
FromParse == \A x \in DOMAIN s : s[x] \in Range(made)
Independent == [][\A x \in DOMAIN s \cap DOMAIN s' : s'[x] = s[x]]_<<s, h, made>>
View == <<s, Range(made)>>
Emit == Len(h) = Depth => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
=============================================================================
