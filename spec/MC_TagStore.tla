---------------------------- MODULE MC_TagStore ----------------------------
EXTENDS TagStore, Json, IOUtils, CSV
CONSTANTS Depth, MaxT, MaxV
VARIABLES s, h
vars == <<s, h>>
Vals == {<<"e">>, <<"e", "x">>, <<"d", "">>, <<"e", "y", "z">>, <<"p", "x">>}
Ops == [o : {"add", "addoom"}, v : Vals, r : {0}] \cup [o : {"add"}, v : {<<"e">>}, r : {11}] \cup [o : {"addbad"}, r : {11}]
       \cup [o : {"addoom"}, v : {<<"e">>}, r : {4}] \cup [o : {"content", "contentoom"}, v : {"", "a"}, r : {0}]
       \cup {[o |-> "contentself", r |-> 0], [o |-> "contentbad", r |-> 11], [o |-> "contentoom", v |-> "a", r |-> 4], [o |-> "derive"]}
Init == s = [New EXCEPT !.max = MaxT, !.maxv = MaxV] /\ h = <<>>
Next == Len(h) < Depth /\ \E op \in Ops : \E t \in Exec(s, op) : s' = t /\ h' = Append(h, op)
\* earlier tags never change, are never reordered or dropped; the limit is respected
AppendOnly == [][IsPrefix(s.tags, s'.tags) /\ Len(s'.tags) <= Len(s.tags) + 1]_vars
Apart == [][s.tags # s'.tags => s.text = s'.text]_vars
Bounded == MaxT # NoMax => Len(s.tags) <= MaxT /\ \A i \in DOMAIN s.tags : Len(s.tags[i]) <= MaxV
\* the accessors agree with one another
Agree == \A n \in {"e", "d", "p", "q"} :
    /\ (WithValue(s, n) # <<>>) => Named(s, n) # {}
    /\ Len(WithValue(s, n)) <= Cardinality(Named(s, n))
View == s
Emit == Len(h) = Depth => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
=============================================================================
