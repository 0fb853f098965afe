------------------------------ MODULE GiftWrap ------------------------------
(* P28.  Letters in gift wrap (NIP-59) and direct messages (NIP-17).         *)
(*                                                                           *)
(* A letter (rumor) is sealed by its author for one reader, and the seal is  *)
(* wrapped under a key made for this one wrap.  What the reader of NIP-44    *)
(* and the signature check find in an event is the record                    *)
(*   d = [kind, tags, age, key, valid, open, seal]     the wrap              *)
(*   d.seal = [parsed, kind, tags, age, key, valid, open, rumor]             *)
(*   d.seal.rumor = [parsed, kind, at, tags, text, key, idok, signed]        *)
(* where key is the public key an event names, valid that its id and         *)
(* signature are right, open that the content opens for the reader and key,  *)
(* and age how long before now the event says it was made.                   *)
(*                                                                           *)
(* State  used   keys of the wraps made so far      ages   their dates       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
TwoDays == 172800
Init0 == [used |-> {}, ages |-> <<>>]
Hidden(a) == a >= 0 /\ a < TwoDays
Largest == 40960          \* a longer letter makes a seal that NIP-44 cannot carry
P(to) == <<"p", to>>
DmTags(op) == <<P(op.to)>> \o (IF op.subject = "none" THEN <<>> ELSE <<<<"subject", op.subject>>>>) \o (IF op.reply = "none" THEN <<>> ELSE <<<<"e", op.reply>>>>)
Letter(l) == [kind |-> l.kind, at |-> l.at, tags |-> l.tags, text |-> l.text, key |-> l.key]
RECURSIVE Pairs(_)
Pairs(q) == IF Len(q) < 2 THEN <<>> ELSE <<<<q[1], q[2]>>>> \o Pairs(SubSeq(q, 3, Len(q)))
Wrapped(s, d, to, extra) == d.kind = 1059 /\ d.tags = <<P(to)>> \o extra /\ d.valid /\ d.open /\ Hidden(d.age) /\ d.key \notin s.used
Sealed(e, from) == e.parsed /\ e.kind = 13 /\ e.tags = <<>> /\ e.key = from /\ e.valid /\ e.open /\ Hidden(e.age) /\ e.rumor.parsed /\ e.rumor.idok
Made(s, op) == {[s EXCEPT !.used = @ \cup {op.d.key, op.from}, !.ages = Append(@, <<op.d.seal.age, op.d.age>>)]}
\* a call that makes something: fails when it must, and then leaves nothing
Refused(s, op, may) == IF (may \/ op.inj > 0) /\ ~op.left THEN {s} ELSE {}
May(op) == ~op.norand
\* the author, the letter and the reader are what they were said to be
Opens(via, d) == /\ d.kind = 1059 /\ d.open /\ d.seal.parsed /\ d.seal.kind = 13 /\ d.seal.valid /\ d.seal.open /\ d.seal.rumor.parsed
                 /\ (d.seal.rumor.key = d.seal.key \/ (via = 59 /\ d.seal.rumor.signed))
Exec(s, op) ==
    CASE op.o = "rumor" ->
           IF op.r # 0 THEN Refused(s, op, FALSE)
           ELSE IF May(op) /\ Letter(op.d) = [kind |-> op.kind, at |-> op.at, tags |-> <<>>, text |-> op.text, key |-> op.key] /\ op.d.idok /\ op.d.unsigned THEN {s} ELSE {}
      [] op.o = "send" ->
           IF op.r # 0 THEN Refused(s, op, ~op.keys \/ op.size > Largest)
           ELSE IF May(op) /\ op.keys /\ Wrapped(s, op.d, op.to, <<>>) /\ Sealed(op.d.seal, op.from)
                   /\ Letter(op.d.seal.rumor) = [kind |-> 14, at |-> op.at, tags |-> DmTags(op), text |-> op.text, key |-> op.from] THEN Made(s, op) ELSE {}
      [] op.o = "wrap" ->
           IF op.r # 0 THEN Refused(s, op, ~op.keys \/ op.size > Largest)
           ELSE IF May(op) /\ op.keys /\ Wrapped(s, op.d, op.to, <<>>) /\ Sealed(op.d.seal, op.from) /\ Letter(op.d.seal.rumor) = Letter(op.ev) THEN Made(s, op) ELSE {}
         \* d.seal alone is judged: the seal as it came from create_seal
      [] op.o = "seal" ->
           IF op.r # 0 THEN Refused(s, op, ~op.keys \/ op.size > 65535)
           ELSE IF May(op) /\ op.keys /\ Sealed(op.d.seal, op.from) /\ Letter(op.d.seal.rumor) = Letter(op.ev) THEN {s} ELSE {}
      [] op.o = "gift" ->
           IF op.r # 0 THEN Refused(s, op, ~op.keys \/ op.size > 65535)
           ELSE IF May(op) /\ op.keys /\ Wrapped(s, op.d, op.to, Pairs(op.extra)) /\ op.d.seal = op.seal THEN {[s EXCEPT !.used = @ \cup {op.d.key}]} ELSE {}
      [] op.o = "open" ->
           IF op.r # 0 THEN (IF (~Opens(op.via, op.d) \/ op.inj > 0) /\ ~op.left THEN {s} ELSE {})
           ELSE IF Opens(op.via, op.d) /\ Letter(op.got) = Letter(op.d.seal.rumor) /\ (op.asked => op.author = op.d.seal.key) THEN {s} ELSE {}
         \* a missing argument
      [] op.o = "null" -> IF op.r # 0 THEN {s} ELSE {}
      [] op.o = "restart" -> {s}
         \* the dates tell nothing (three wraps that all look fresh, or dated like their seals, do not happen by chance), and every block was given back
      [] op.o = "end" -> IF op.live = 0 /\ (Len(s.ages) >= 3 => (\E i \in 1..Len(s.ages) : s.ages[i][1] >= 3600 \/ s.ages[i][2] >= 3600) /\ \E i \in 1..Len(s.ages) : s.ages[i][1] # s.ages[i][2]) THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
