--------------------------- MODULE MC_RelayMsg ---------------------------
EXTENDS RelayMsg, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, h
Rep(x, n) == [i \in 1..n |-> x]
Subs == {<<97>>, Rep(120, 64), Rep(120, 65)}
Msgs == {<<>>, <<34, 92, 10>>, Rep(120, 255), Rep(121, 256), Rep(122, 300)}
Lens == {0, 10, 254, 255, 256}
Counts == {SmallNum(0 - 5), SmallNum(0), SmallNum(77)}
Built == [t : {"EOSE"}, sub : Subs] \cup [t : {"OK"}, id : {Rep(48, 64)}, ok : BOOLEAN, msg : Msgs] \cup [t : {"CLOSED"}, sub : Subs, msg : Msgs]
         \cup [t : {"NOTICE", "AUTH"}, msg : Msgs] \cup [t : {"COUNT"}, sub : {<<97>>}, count : Counts, approx : BOOLEAN] \cup [t : {"EVENT"}, sub : {<<97>>}, ev : {<<>>}]
\* an honest rendering, with an abstract length
Text(m) == LET f(x, n) == IF Len(x) <= n THEN x ELSE SubSeq(x, 1, n) IN
    CASE m.t = "EOSE" -> [type |-> m.t, n |-> 2, sub |-> f(m.sub, MaxSub)]
      [] m.t = "OK" -> [type |-> m.t, n |-> 4, id |-> m.id, ok |-> m.ok, msg |-> f(m.msg, MaxMsg)]
      [] m.t = "CLOSED" -> [type |-> m.t, n |-> 3, sub |-> f(m.sub, MaxSub), msg |-> f(m.msg, MaxMsg)]
      [] m.t = "NOTICE" -> [type |-> m.t, n |-> 2, msg |-> f(m.msg, MaxMsg)]
      [] m.t = "AUTH" -> [type |-> m.t, n |-> 2, msg |-> f(m.msg, MaxChallenge)]
      [] m.t = "COUNT" -> [type |-> m.t, n |-> 3, sub |-> m.sub, count |-> Clamp(m.count), approx |-> m.approx]
      [] OTHER -> [type |-> m.t, n |-> 0]
LenOf(m) == IF m.t \in {"OK", "CLOSED", "NOTICE", "AUTH"} THEN 10 + Len(Text(m).msg) ELSE 10
Write(cap) == LET m == s.m IN
    IF NoEvent(m) THEN [o |-> "write", cap |-> cap, r |-> MissingField, len |-> 0, terminated |-> FALSE]
    ELSE IF LenOf(m) < cap THEN [o |-> "write", cap |-> cap, r |-> 0, len |-> LenOf(m), terminated |-> TRUE, out |-> Text(m)]
    ELSE [o |-> "write", cap |-> cap, r |-> TooSmall, len |-> LenOf(m), terminated |-> FALSE]
Init == s = Init0 /\ h = <<>>
Step(op) == \E t \in RExec(s, op) : s' = t /\ h' = Append(h, op)
Next == Len(h) < Depth /\ ((\E m \in Built : Step([o |-> "build", m |-> m])) \/ (s.m # None /\ \E cap \in {1, 10, 11, 266, 267, 400} : Step(Write(cap))))
\* an honest implementation is always accepted, a truncating one never
Honest == s.m # None => \A cap \in {1, 10, 11, 266, 267, 400} : RExec(s, Write(cap)) # {}
Truncating == s.m # None /\ ~NoEvent(s.m) => \A cap \in {1, 10, 11} : LenOf(s.m) >= cap /\ s.len >= 0 =>
                RExec(s, [o |-> "write", cap |-> cap, r |-> 0, len |-> cap - 1, terminated |-> TRUE, out |-> Text(s.m)]) = {}
View == <<s, Len(h)>>
Emit == (Len(h) = Depth) => CSVWrite("%1$s", <<ToJson([i \in 1..Len(h) |-> IF h[i].o = "build" THEN h[i] ELSE [o |-> "write", cap |-> h[i].cap]])>>, IOEnv.GEN)
=============================================================================
