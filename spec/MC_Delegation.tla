------------------------- MODULE MC_Delegation -------------------------
EXTENDS Delegation, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, h
A == <<38>>
C == {KindEq \o <<49>>, KindEq \o <<55>>, After \o <<53>>, After \o <<51>>, Before \o <<56>>, Before \o <<54>>, KindEq \o <<120>>, <<120, 61, 49>>, KindEq, KindEq \o <<54, 53, 53, 51, 54>>}
Texts == C \cup {a \o A \o b : a, b \in C} \cup {<<>>, A, A \o KindEq \o <<49>>}
Deep == {After \o <<51>> \o A \o b \o A \o c : b, c \in {KindEq \o <<49>>, After \o <<53>>, Before \o <<54>>, Before \o <<56>>}}
Key(n) == [i \in 1..32 |-> n]
Token(n) == [i \in 1..64 |-> n]
Init == s = <<>> /\ h = <<>>
Step(op) == \E t \in Exec(s, op) : s' = t /\ h' = Append(h, op)
Create(by, to, text, n) == [o |-> "create", by |-> Key(by), to |-> Key(to), text |-> text, token |-> Token(n), keyok |-> TRUE, rng |-> TRUE, oom |-> FALSE, r |-> 0, gottext |-> text, gotby |-> Key(by)]
Next == Len(h) < Depth /\ \E by \in {1, 2}, to \in (IF h = <<>> THEN {2} ELSE {1, 2}), text \in (IF h = <<>> THEN Texts \cup Deep ELSE {KindEq \o <<49>>, Before \o <<54>>}) : Step(Create(by, to, text, Len(h) + 1))
Evs == {<<k, SmallNum(t)>> : k \in {1, 7}, t \in {5, 6}}
Accepts(author, k, at, d) == Exec(s, [o |-> "event", tags |-> <<IssueTag(d)>>, author |-> author, kind |-> SmallNum(k), at |-> at, r |-> 0]) # {}
\* nobody acts for somebody who did not say so: an event is accepted under a delegation only if the delegator issued it to its author
Sound == \A by, to \in {1, 2}, n \in 1..Depth : \A e \in Evs : \A text \in {KindEq \o <<49>>} \cup {d.text : d \in Range(s)} :
    LET d == [by |-> Key(by), text |-> text, token |-> Token(n)] IN
    Accepts(Key(to), e[1], e[2], d) => \E i \in 1..Len(s) : s[i].by = Key(by) /\ s[i].to = Key(to) /\ s[i].text = text /\ TRUE \in Valid(text)
\* adding a condition on time never widens what a delegation permits
Narrowing == \A d \in Range(s) : \A c \in {After \o <<53>>, Before \o <<54>>} : \A e \in Evs :
    Permits(d.text \o A \o c, SmallNum(e[1]), e[2]) => Permits(d.text, SmallNum(e[1]), e[2])
OnlyValid == \A d \in Range(s) : TRUE \in Valid(d.text)
Emit == (Len(h) = Depth) => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
=============================================================================
