-------------------------------- MODULE Zap --------------------------------
(* P19.  Zaps (NIP-57).  State: the set of requests (by id) whose receipt    *)
(* was verified, i.e. that were counted as paid.                             *)
EXTENDS Bytes
RequestKind == 9734
ReceiptKind == 9735
Lnbc == <<108, 110, 98, 99>>
NRelays == <<114, 101, 108, 97, 121, 115>>
NAmount == <<97, 109, 111, 117, 110, 116>>
NLnurl == <<108, 110, 117, 114, 108>>
NBolt == <<98, 111, 108, 116, 49, 49>>
NPre == <<112, 114, 101, 105, 109, 97, 103, 101>>
NDesc == <<100, 101, 115, 99, 114, 105, 112, 116, 105, 111, 110>>
NP == <<112>>
RequestTags(op) == << <<NRelays>> \o op.relays, <<NAmount, DecOf(op.amount)>> >> \o (IF op.lnurl = <<>> THEN <<>> ELSE << <<NLnurl, op.lnurl[1]>> >>) \o << <<NP, HexOf(op.recipient)>> >>
\* value of the first tag with the name and a value: <<>> or <<v>>
First(tags, name) == LET ix == {i \in 1..Len(tags) : Len(tags[i]) >= 2 /\ tags[i][1] = name}
                     IN IF ix = {} THEN <<>> ELSE <<tags[CHOOSE i \in ix : \A j \in ix : i <= j][2]>>
LastOne(s) == LET ix == {i \in 1..Len(s) : s[i] = 49} IN IF ix = {} THEN 0 ELSE CHOOSE i \in ix : \A j \in ix : j <= i
Zeros(n) == [i \in 1..n |-> 0]
Zero == Num(FALSE, <<0>>)
Cap(n) == IF NumLeq(n, U64Max) THEN n ELSE Zero
\* the amount between the prefix and the last 1, in millisatoshi; 0 when there is none (or it does not fit)
HrpAmounts(h) == LET nd == {i \in 1..Len(h) : ~IsDigit(h[i])}
                     k == IF nd = {} THEN Len(h) ELSE (CHOOSE i \in nd : \A j \in nd : i <= j) - 1
                     d == [i \in 1..k |-> h[i] - 48]
                     Z(n) == Cap(NonNegNum(StripZeros(d \o Zeros(n))))
                 IN IF k = 0 \/ Len(h) > k + 1 THEN {Zero}
                    ELSE IF Len(h) = k THEN {Z(11)}
                    ELSE CASE Lower(h)[k + 1] = 109 -> {Z(8)} [] Lower(h)[k + 1] = 117 -> {Z(5)} [] Lower(h)[k + 1] = 110 -> {Z(2)}
                           [] Lower(h)[k + 1] = 112 -> (IF (d[k] = 0 \/ k = 1) /\ NumLeq(NonNegNum(StripZeros(d)), U64Max) THEN {Cap(NonNegNum(IF k = 1 THEN <<0>> ELSE StripZeros(SubSeq(d, 1, k - 1))))} ELSE {Zero, Cap(NonNegNum(StripZeros(SubSeq(d, 1, k - 1))))})
                           [] OTHER -> {Zero}
Amounts(inv) == IF inv = <<>> THEN {Zero}
                ELSE IF StartsWith(inv[1], Lnbc) THEN (IF LastOne(inv[1]) = 0 THEN {Zero} ELSE HrpAmounts(SubSeq(inv[1], 5, LastOne(inv[1]) - 1)))
                ELSE {Zero}
Plain(inv) == inv = <<>> \/ StartsWith(inv[1], Lnbc) \/ ~\E i \in 1..(Len(inv[1]) - 3) : Lower(SubSeq(inv[1], i, i + 3)) = Lnbc
\* desc: what the first description tag holds, [ok |-> it is an event, ev |-> the event it denotes]
ParseOk(op) == op.kind = ReceiptKind /\ (op.want.request /\ First(op.tags, NDesc) # <<>> => op.desc.ok)
ParseRight(op) ==
    /\ op.want.amount => (~Plain(First(op.tags, NBolt)) \/ op.amount \in Amounts(First(op.tags, NBolt)))
    /\ op.want.bolt11 => op.bolt11 = First(op.tags, NBolt)
    /\ op.want.preimage => op.preimage = (LET p == First(op.tags, NPre) IN IF p = <<>> THEN <<>> ELSE IF Len(p[1]) <= 64 THEN p[1] ELSE <<>>)
    /\ op.want.request => op.request = (IF First(op.tags, NDesc) = <<>> THEN <<>> ELSE <<op.desc.ev>>)
\* amount the request asks for; any number when it is not a plain one
Asked(tags) == LET a == First(tags, NAmount) IN IF a = <<>> THEN {Zero} ELSE IF IsNumeral(a[1]) /\ NumLeq(NumeralVal(a[1]), U64Max) THEN {NumeralVal(a[1])} ELSE {}
AmountOk(op) == \A a \in Asked(op.rtags), b \in Amounts(First(op.tags, NBolt)) : NumZero(a) \/ a = b
AmountBad(op) == \A a \in Asked(op.rtags), b \in Amounts(First(op.tags, NBolt)) : ~NumZero(a) /\ a # b
Odd(op) == Asked(op.rtags) = {} \/ ~Plain(First(op.tags, NBolt))
Embeds(op) == First(op.tags, NDesc) # <<>> /\ op.desc.ok /\ op.desc.id = op.rid
Shape(op) == op.kind = ReceiptKind /\ op.rkind = RequestKind /\ op.server = HexOf(op.author) /\ Embeds(op) /\ op.sigok
MayVerify(op) == Shape(op) /\ (Odd(op) \/ ~AmountBad(op))
MayRefuse(op) == ~Shape(op) \/ Odd(op) \/ ~AmountOk(op)
LnurlShape(u) == StartsWith(u, NLnurl \o <<49>>) /\ LastOne(u) = 6 /\ Len(u) >= 12
Exec(s, op) ==
    CASE op.o = "request" -> IF op.r = 0 THEN (IF op.relays # <<>> /\ op.kind = RequestKind /\ op.tags = RequestTags(op) /\ op.content = op.text THEN {s} ELSE {})
                             ELSE IF (op.relays = <<>> \/ op.oom) /\ ~op.left THEN {s} ELSE {}
      [] op.o = "parse" -> IF op.r = 0 THEN (IF ParseOk(op) /\ ParseRight(op) THEN {s} ELSE {})
                           ELSE IF (~ParseOk(op) \/ op.oom) /\ op.bolt11 = <<>> /\ op.request = <<>> THEN {s} ELSE {}
      [] op.o = "verify" -> IF op.r = 0 THEN (IF MayVerify(op) THEN {s \cup {op.rid}} ELSE {}) ELSE IF MayRefuse(op) \/ op.oom THEN {s} ELSE {}
      [] op.o = "lnurl" -> IF op.r = 0 THEN (IF LnurlShape(op.text) /\ Len(op.text) <= 90 THEN {s} ELSE {}) ELSE IF ~LnurlShape(op.text) \/ ~op.real \/ Len(op.text) > 90 THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
