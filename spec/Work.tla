-------------------------------- MODULE Work --------------------------------
(* P14.  Proof of work.  State: an event's tags, id and whether the id is    *)
(* the hash of the rest (idok).  Mining changes only the nonce tag, the time *)
(* and the id, and succeeds only with an id that really has the difficulty.  *)
EXTENDS Bytes
RECURSIVE LeadZ(_)
LeadZ(b) == IF b >= 128 THEN 0 ELSE IF b = 0 THEN 8 ELSE 1 + LeadZ(b * 2)
RECURSIVE Difficulty(_)
Difficulty(id) == IF id = <<>> THEN 0 ELSE IF Head(id) = 0 THEN 8 + Difficulty(Tail(id)) ELSE LeadZ(Head(id))
Nonce == <<110, 111, 110, 99, 101>>
NonceAt(tags) == LET ix == {i \in 1..Len(tags) : Len(tags[i]) >= 1 /\ tags[i][1] = Nonce} IN IF ix = {} THEN 0 ELSE CHOOSE i \in ix : \A j \in ix : i <= j
NonceTag(n, target) == <<Nonce, n>> \o (IF target > 0 THEN <<Digits(NatDigits(target))>> ELSE <<>>)
\* a tag that has further values may keep them, but an update without a target leaves no old target standing
SetNonce(tags, n, target) ==
    LET i == NonceAt(tags) IN
    IF i = 0 THEN {Append(tags, NonceTag(n, target))}
    ELSE LET t == NonceTag(n, target) IN {[tags EXCEPT ![i] = t]} \cup (IF target > 0 THEN {[tags EXCEPT ![i] = t \o SubSeq(tags[i], Len(t) + 1, Len(tags[i]))]} ELSE {})
\* the difficulty a nonce tag commits to; a text that is not a number commits to nothing, or to what a lenient reader sees in it
Committed(t) == IF Len(t) < 3 THEN {SmallNum(0)} ELSE IF IsNumeral(t[3]) THEN {NumeralVal(t[3])} ELSE {SmallNum(0), SmallNum(1000)}
Verdicts(s, min) == LET i == NonceAt(s.tags) IN
    IF min < 1 \/ i = 0 \/ Difficulty(s.id) < min \/ Len(s.tags[i]) < 2 THEN {FALSE}
    ELSE {NumLeq(c, SmallNum(Difficulty(s.id))) : c \in Committed(s.tags[i])}
Init0 == [tags |-> <<>>, id |-> [i \in 1..32 |-> 0], same |-> TRUE]
Mined(s, op) ==
    \E n \in {op.nonce} : op.tags \in SetNonce(s.tags, n, op.target)
Exec(s, op) ==
    CASE op.o = "new" -> {[s EXCEPT !.id = op.id]}
      [] op.o = "tag" -> IF op.r = 0 THEN {[s EXCEPT !.tags = Append(s.tags, op.t)]} ELSE {}
      [] op.o = "difficulty" -> IF op.r = Difficulty(op.id) THEN {s} ELSE {}
      [] op.o = "nonce" -> IF op.r = 0 /\ op.tags \in SetNonce(s.tags, op.n, op.target) /\ op.id = s.id THEN {[s EXCEPT !.tags = op.tags]} ELSE {}
         \* seen: kind, content, author unchanged; idok: the id is the hash of the event; best: the best difficulty among the nonces of the budget
      [] op.o = "mine" ->
            IF ~op.seen THEN {}
            ELSE IF op.target < 1 THEN (IF op.r # 0 /\ op.tags = s.tags /\ op.id = s.id THEN {s} ELSE {})
            ELSE IF op.r = 0 THEN (IF op.idok /\ Difficulty(op.id) >= op.target /\ op.atok /\ Mined(s, op) THEN {[s EXCEPT !.tags = op.tags, !.id = op.id]} ELSE {})
            ELSE IF op.r = 9 /\ op.bounded /\ (op.clocked => op.best < op.target) /\ Mined(s, op) THEN {[s EXCEPT !.tags = op.tags, !.id = op.id]} ELSE {}
      [] op.o = "id" -> {[s EXCEPT !.id = op.id]}
      [] op.o = "verify" -> IF (op.r = 0) \in Verdicts(s, op.min) THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
