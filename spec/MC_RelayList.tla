-------------------------- MODULE MC_RelayList --------------------------
EXTENDS RelayList, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, h
U == {Wss \o <<97>>, Ws \o <<97>>, Wss \o <<98>>, Wss, Wss \o <<47, 97>>, <<104, 116, 116, 112>>}
TagsIn == {<<R, u>> : u \in U} \cup {<<R, Wss \o <<97>>, m>> : m \in {Read, Write, <<120>>, <<>>}} \cup {<<<<114, 114>>, Wss \o <<97>>>>, <<R>>}
Init == s = <<>> /\ h = <<>>
Step(op) == \E t \in Exec(s, op) : s' = t /\ h' = Append(h, op)
Next == Len(h) < Depth /\
    ((\E u \in U, r, w \in BOOLEAN : LET op == [o |-> "add", url |-> u, read |-> r, write |-> w, oom |-> FALSE] IN Step(op @@ [r |-> IF CanAdd(s, Entry(u, r, w)) THEN 0 ELSE 11]))
     \/ (\E a, b \in TagsIn, k \in {Kind, 3} : h = <<>> /\ Step([o |-> "from", kind |-> k, tags |-> <<a, b>>, oom |-> FALSE, r |-> IF k = Kind THEN 0 ELSE 2])))
WellFormed == \A i \in 1..Len(s) : UrlOk(s[i].url) /\ (s[i].read \/ s[i].write) /\ \A j \in 1..Len(s) : s[i].url = s[j].url => i = j
RoundTrip == FromTags(TagsOf(s)) = s
Covered == \A i \in 1..Len(s) : s[i].url \in Range(Urls(s, "read")) \cup Range(Urls(s, "write"))
Emit == (Len(h) = Depth) => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
View == <<s, Len(h)>>
=============================================================================
