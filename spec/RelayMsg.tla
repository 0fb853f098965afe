------------------------------ MODULE RelayMsg ------------------------------
(* P09.  What a relay answers.  State: the message being built and, once it *)
(* has been written out, the length of its text.                            *)
EXTENDS EventJson
None == [t |-> "none"]
Init0 == [m |-> None, len |-> 0 - 1]
Cut(b, n) == IF Len(b) <= n THEN {b} ELSE {SubSeq(b, 1, k) : k \in (n - 3)..n}    \* a prefix, possibly to a character boundary
\* the texts a message field can hold
MaxMsg == 255
MaxSub == 64
MaxChallenge == 127
Clamp(n) == IF n.neg THEN SmallNum(0) ELSE n
\* what a JSON rendering (a parsed array) must say for a built message
Denoted(m, out) ==
    CASE m.t = "EVENT" -> out.type = "EVENT" /\ out.n = 3 /\ out.sub \in Cut(m.sub, MaxSub) /\ out.ev = m.ev
      [] m.t = "OK" -> out.type = "OK" /\ out.n = 4 /\ out.id \in Cut(m.id, MaxSub) /\ out.ok = m.ok /\ out.msg \in Cut(m.msg, MaxMsg)
      [] m.t = "EOSE" -> out.type = "EOSE" /\ out.n = 2 /\ out.sub \in Cut(m.sub, MaxSub)
      [] m.t = "CLOSED" -> out.type = "CLOSED" /\ out.n = 3 /\ out.sub \in Cut(m.sub, MaxSub) /\ out.msg \in Cut(m.msg, MaxMsg)
      [] m.t = "NOTICE" -> out.type = "NOTICE" /\ out.n = 2 /\ out.msg \in Cut(m.msg, MaxMsg)
      [] m.t = "AUTH" -> out.type = "AUTH" /\ out.n = 2 /\ out.msg \in Cut(m.msg, MaxChallenge)
      [] m.t = "COUNT" -> out.type = "COUNT" /\ out.n = 3 /\ out.sub \in Cut(m.sub, MaxSub) /\ out.count = Clamp(m.count) /\ out.approx = m.approx
      [] OTHER -> FALSE
TooSmall == 16
MissingField == 2
NoEvent(m) == m.t = "EVENT" /\ m.ev = <<>>
RExec(s, op) ==
    CASE op.o = "build" -> {[m |-> op.m, len |-> 0 - 1]}
         \* serialize into cap bytes: the whole text with its terminator, or nothing and the length needed
      [] op.o = "write" ->
            IF NoEvent(s.m) THEN (IF op.r = MissingField THEN {s} ELSE {})
            ELSE IF s.len >= 0 /\ (op.r = 0) # (s.len < op.cap) THEN {}
            ELSE IF op.r = 0
                 THEN IF op.len < op.cap /\ op.terminated /\ Denoted(s.m, op.out) /\ (s.len < 0 \/ s.len = op.len)
                      THEN {[s EXCEPT !.len = op.len]} ELSE {}
                 ELSE IF op.r = TooSmall /\ op.len >= op.cap /\ (s.len < 0 \/ s.len = op.len)
                      THEN {[s EXCEPT !.len = op.len]} ELSE {}
         \* an allocation failed: the whole message or an error
      [] op.o = "writeoom" -> IF op.r # 0 \/ Denoted(s.m, op.out) THEN {s} ELSE {}
         \* a built message of no known type is refused
      [] op.o = "unknown" -> IF op.r # 0 THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
