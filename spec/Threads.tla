------------------------------- MODULE Threads -------------------------------
(* P13.  Conversations: what an event replies to.  State: the tags of an    *)
(* event.  A marked tag decides; without marks position does.               *)
EXTENDS Bytes
NotFound == <<>>
NULL == "null"
ETags(tags) == SelectSeq(tags, LAMBDA t : Len(t) >= 2 /\ t[1] = "e")
Marks == {"root", "reply", "mention"}
Mark(t) == IF Len(t) >= 4 THEN t[4] ELSE ""
Marked(es, m) == SelectSeq(es, LAMBDA t : Mark(t) = m)
Unmarked(es) == Marked(es, "")
First(x) == IF x = <<>> THEN {} ELSE {x[1]}
Last_(x) == IF x = <<>> THEN {} ELSE {x[Len(x)]}
Positional(es) == \A i \in 1..Len(es) : Mark(es[i]) \notin Marks
\* the tags that may be named: one, unless the tags are marked in a way NIP-10 gives no meaning
Roots(tags) == LET es == ETags(tags) IN
    IF es = <<>> THEN {NotFound}
    ELSE IF Marked(es, "root") # <<>> THEN First(Marked(es, "root"))
    ELSE IF Positional(es) \/ Len(es) = 1 THEN First(es)
    ELSE First(es) \cup First(Unmarked(es)) \cup {NotFound}
Replies(tags) == LET es == ETags(tags) IN
    IF es = <<>> THEN {NotFound}
    ELSE IF Marked(es, "reply") # <<>> THEN First(Marked(es, "reply"))
    ELSE IF Positional(es) \/ Len(es) = 1 THEN Last_(es)
    ELSE Last_(es) \cup Last_(Unmarked(es)) \cup First(Marked(es, "root"))
Cut(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
Min2(a, b) == IF a < b THEN a ELSE b
\* cap: size of the relay buffer (0: none)
Says(t, op) == IF t = NotFound THEN op.r = 9
               ELSE /\ op.r = 0 /\ op.id = Cut(t[2], 64)
                    /\ op.cap > 0 => LET rel == IF Len(t) >= 3 THEN t[3] ELSE "" IN
                          /\ Len(op.relay) <= op.cap - 1 /\ Len(op.relay) <= Len(rel) /\ op.relay = SubSeq(rel, 1, Len(op.relay))
                          /\ Len(op.relay) >= Min2(Len(rel), Min2(op.cap - 1, 255))
E(id, relay, mark, pk) == <<"e", id, IF relay = NULL THEN "" ELSE relay, mark>> \o (IF pk = NULL THEN <<>> ELSE <<pk>>)
Exec(s, op) ==
    CASE op.o = "new" -> {<<>>}
      [] op.o = "tag" -> IF op.r = 0 THEN {Append(s, op.t)} ELSE {}
      [] op.o = "answer" -> IF op.root = NULL /\ op.reply = NULL THEN (IF op.r # 0 THEN {s} ELSE {})
                            ELSE IF op.r = 0 THEN {s \o (IF op.root = NULL THEN <<>> ELSE <<E(op.root, op.rrelay, "root", op.rpk)>>)
                                                     \o (IF op.reply = NULL THEN <<>> ELSE <<E(op.reply, op.prelay, "reply", op.ppk)>>)} ELSE {}
      [] op.o = "mention" -> IF op.r = 0 THEN {Append(s, <<"p", op.pk>> \o (IF op.relay = NULL THEN <<>> ELSE <<op.relay>>))} ELSE {}
      [] op.o = "tags" -> IF op.tags = s THEN {s} ELSE {}
      [] op.o = "root" -> IF \E t \in Roots(s) : Says(t, op) THEN {s} ELSE {}
      [] op.o = "reply" -> IF \E t \in Replies(s) : Says(t, op) THEN {s} ELSE {}
      [] op.o = "isreply" -> IF \E t \in Replies(s) : op.r = (t # NotFound /\ t[2] # "") THEN {s} ELSE {}
         \* an id buffer that cannot hold an id
      [] op.o = "small" -> IF op.r # 0 THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
