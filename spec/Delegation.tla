----------------------------- MODULE Delegation -----------------------------
(* P15.  Delegations (NIP-26).  State: the delegations that keys actually    *)
(* issued (delegator, delegatee, condition text, token).  A delegation is    *)
(* genuine iff it is one of those, and permits an event iff every condition  *)
(* of its text holds (kinds are alternatives of one condition).              *)
EXTENDS Bytes
I64Min == [neg |-> TRUE, d |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>]
KindEq == <<107, 105, 110, 100, 61>>
After == <<99, 114, 101, 97, 116, 101, 100, 95, 97, 116, 62>>
Before == <<99, 114, 101, 97, 116, 101, 100, 95, 97, 116, 60>>
Bad == [c |-> "bad", n |-> SmallNum(0)]
Signed(v) == IF v # <<>> /\ Head(v) = 45 THEN IsNumeral(Tail(v)) ELSE IsNumeral(v)
SignedVal(v) == IF Head(v) = 45 THEN Num(TRUE, NumeralVal(Tail(v)).d) ELSE NumeralVal(v)
Rest(c, p) == SubSeq(c, Len(p) + 1, Len(c))
Cond(c) == IF StartsWith(c, KindEq) THEN (IF IsNumeral(Rest(c, KindEq)) /\ NumLeq(NumeralVal(Rest(c, KindEq)), SmallNum(65535)) THEN [c |-> "kind", n |-> NumeralVal(Rest(c, KindEq))] ELSE Bad)
           ELSE IF StartsWith(c, After) THEN (IF Signed(Rest(c, After)) THEN [c |-> "after", n |-> SignedVal(Rest(c, After))] ELSE Bad)
           ELSE IF StartsWith(c, Before) THEN (IF Signed(Rest(c, Before)) THEN [c |-> "before", n |-> SignedVal(Rest(c, Before))] ELSE Bad)
           ELSE Bad
Parts(text) == Split(text, 38)
Conds(text) == LET p == SelectSeq(Parts(text), LAMBDA c : c # <<>>) IN TLCEval([i \in 1..Len(p) |-> Cond(p[i])])
\* conditions a reader need not support: stray separators, numbers beyond 64 bits, very many or very long
Unusual(text) == \/ Len(Conds(text)) < Len(Parts(text)) \/ Len(Parts(text)) > 100 \/ Len(text) > 4096
                 \/ \E c \in Range(Conds(text)) : NumLess(I64Max, c.n) \/ NumLess(c.n, I64Min)
Valid(text) == LET cs == Conds(text) IN
    IF cs = <<>> \/ \E c \in Range(cs) : c.c = "bad" THEN {FALSE} ELSE IF Unusual(text) THEN BOOLEAN ELSE {TRUE}
Kinds(cs) == {c.n : c \in {x \in Range(cs) : x.c = "kind"}}
Permits(text, kind, at) == LET cs == Conds(text) IN
    /\ Kinds(cs) = {} \/ kind \in Kinds(cs)
    /\ \A c \in Range(cs) : (c.c = "after" => NumLess(c.n, at)) /\ (c.c = "before" => NumLess(at, c.n))
Genuine(s, by, to, text, token) == \E i \in 1..Len(s) : s[i] = [by |-> by, to |-> to, text |-> text, token |-> token]
DelName == <<100, 101, 108, 101, 103, 97, 116, 105, 111, 110>>
Hex(v, n) == Len(v) = n /\ AllIn(v, IsHex)
Tag(tags) == LET m == SelectSeq(tags, LAMBDA t : Len(t) >= 4 /\ t[1] = DelName) IN IF m = <<>> THEN <<>> ELSE m[1]
\* what an event's delegation is read as: none, malformed, or the delegation
Readings(tags) == LET t == Tag(tags) IN
    IF t = <<>> THEN {"none"} ELSE IF ~Hex(t[2], 64) \/ ~Hex(t[4], 128) THEN {"bad"}
    ELSE {IF v THEN "ok" ELSE "bad" : v \in Valid(t[3])}
      \cup (IF AllIn(t[2] \o t[4], LAMBDA c : IsDigit(c) \/ IsLowerHex(c)) THEN {} ELSE {"bad"})
IssueTag(d) == <<DelName, HexOf(d.by), d.text, HexOf(d.token)>>
Exec(s, op) ==
    CASE op.o = "create" -> IF op.r = 0 THEN (IF op.keyok /\ op.rng /\ TRUE \in Valid(op.text) /\ op.gottext = op.text /\ op.gotby = op.by
                                              THEN {Append(s, [by |-> op.by, to |-> op.to, text |-> op.text, token |-> op.token])} ELSE {})
                            ELSE IF ~op.keyok \/ ~op.rng \/ op.oom \/ FALSE \in Valid(op.text) THEN {s} ELSE {}
      [] op.o = "verify" -> IF (op.r = 0) = Genuine(s, op.by, op.to, op.text, op.token) THEN {s} ELSE {}
      [] op.o = "check" -> IF (op.r = 0) = Permits(op.text, op.kind, op.at) THEN {s} ELSE {}
      [] op.o = "add" -> IF op.r = 0 /\ op.tag = IssueTag(op) THEN {s} ELSE {}
      [] op.o = "get" -> IF \E x \in Readings(op.tags) :
                              CASE x = "none" -> op.r = 9 [] x = "bad" -> op.r \notin {0, 9}
                                [] x = "ok" -> LET t == Tag(op.tags) IN op.r = 0 /\ op.by = UnHex(t[2]) /\ op.text = t[3] /\ op.token = UnHex(t[4]) THEN {s} ELSE {}
      [] op.o = "event" -> IF \E x \in Readings(op.tags) : LET t == Tag(op.tags) IN
                              (op.r = 0) = (x = "ok" /\ Genuine(s, UnHex(t[2]), op.author, t[3], UnHex(t[4])) /\ Permits(t[3], op.kind, op.at)) THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
