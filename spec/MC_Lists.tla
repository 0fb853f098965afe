---------------------------- MODULE MC_Lists ----------------------------
EXTENDS Lists, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, h
K == [i \in 1..64 |-> 97]
V == {K, <<120>>, <<>>}
Init == s \in {[Init0 EXCEPT !.l.kind = 10000], [Init0 EXCEPT !.l.kind = 30000]} /\ h = <<>>
Step(op) == \E t \in Exec(s, op) : s' = t /\ h' = Append(h, op)
Add(k, v, r, p, b) == LET op == [o |-> "add", k |-> k, value |-> v, relay |-> r, pet |-> p, private |-> b, oom |-> FALSE] IN Step(op @@ [r |-> IF AddOk(op) THEN 0 ELSE 11])
Next == Len(h) < Depth /\
    ((\E v \in V, b \in BOOLEAN : Add("t", v, <<>>, <<>>, b)) \/ (\E v \in V, b \in BOOLEAN, p \in {<<>>, <<<<>>>>, <<<<112>>>>}, r \in {<<>>, <<<<114>>>>} : Add("p", v, r, p, b))
     \/ Add("emoji", <<120>>, <<<<117>>>>, <<>>, FALSE)
     \/ (\E i \in 1..2 : Step([o |-> "remove", i |-> i, r |-> IF i <= Len(s.l.items) THEN 0 ELSE 11]))
     \/ (\E f \in {"d", "title"}, v \in {<<>>, <<<<118>>>>} : Step([o |-> "set", f |-> f, v |-> v, r |-> 0, oom |-> FALSE]))
     \/ Step([o |-> "to", r |-> 0, key |-> TRUE, canseal |-> TRUE, kind |-> s.l.kind, atok |-> TRUE, tags |-> Tags(s.l), clear |-> Private(s.l.items) = <<>>, sealed |-> [i \in 1..Len(Private(s.l.items)) |-> ItemTag(Private(s.l.items)[i])], oom |-> FALSE, toobig |-> FALSE]))
\* publishing and reading back gives the same items (public first), and for parameterized lists the same metadata
Same(a, b) == a.type = b.type /\ a.value = b.value /\ Opt(a.relay) = Opt(b.relay) /\ Opt(a.pet) = Opt(b.pet) /\ a.private = b.private
RoundTrip == LET x == Public(s.l.items) \o Private(s.l.items) y == FromEvent(s.l.kind, Tags(s.l), Private(s.l.items)) IN
    /\ Len(x) = Len(y.items) /\ \A i \in 1..Len(x) : Same(x[i], y.items[i])
    /\ Param(s.l.kind) => y.title = s.l.title /\ Opt(y.d) = Opt(s.l.d)
\* a private item's value appears in no tag unless it is public too
Secret == \A i \in Range(Private(s.l.items)) : (\A j \in Range(Public(s.l.items)) : j.value # i.value \/ j.type # i.type) =>
              \A t \in Range(Tags(s.l)) : ~(Len(t) >= 2 /\ t[1] = i.type /\ t[2] = i.value)
\* what one client seals another reads as the same items
Interop == LET x == Private(s.l.items) y == Unsealed(SealedRows([i \in 1..Len(x) |-> ItemTag(x[i])])) IN
    Len(y) = Len(x) /\ \A i \in 1..Len(x) : Same(x[i], y[i])
Emit == (Len(h) = Depth) => CSVWrite("%1$s", <<ToJson([kind |-> s.l.kind, ops |-> h])>>, IOEnv.GEN)
View == <<s, Len(h)>>
=============================================================================
