------------------------------ MODULE Deletion ------------------------------
(* P11.  Deletion requests.  State: the events a relay holds.  A request    *)
(* removes exactly its author's own events that it names, by id or (for     *)
(* addressable events) by address; it never reaches anybody else's.         *)
EXTENDS Codecs
Addressable(k) == 30000 <= k /\ k < 40000
Named(tags, n) == SelectSeq(tags, LAMBDA t : Len(t) >= 2 /\ t[1] = n)
Second(ts) == [i \in 1..Len(ts) |-> ts[i][2]]
Ids(tags) == SelectSeq(Second(Named(tags, <<101>>)), Hex64)
Addresses(tags) == SelectSeq(Second(Named(tags, <<97>>)), Address)
D(tags) == LET m == Named(tags, <<100>>) IN IF m = <<>> THEN <<>> ELSE m[1][2]
AddressOf(e) == DecOf(SmallNum(e.kind)) \o <<58>> \o HexOf(e.pubkey) \o <<58>> \o D(e.tags)
ById(rq, e) == rq.pubkey = e.pubkey /\ HexOf(e.id) \in Range(Ids(rq.tags))
ByAddress(rq, e) == rq.pubkey = e.pubkey /\ Addressable(e.kind) /\ AddressOf(e) \in Range(Addresses(rq.tags))
Parsed(rq, p) == p.ids = Ids(rq.tags) /\ p.addresses = Addresses(rq.tags) /\ p.pubkey = HexOf(rq.pubkey) /\ p.reason = rq.content
Nothing(p) == p.ids = <<>> /\ p.addresses = <<>> /\ p.reason = <<>>
\* what the library said of the i-th held event, in the order the harness holds them
Held(s, op) == {op.held[i].ev : i \in 1..Len(op.held)} = s
Judged(op) == \A i \in 1..Len(op.held) : op.held[i].byid = ById(op.rq, op.held[i].ev) /\ op.held[i].byaddr = ByAddress(op.rq, op.held[i].ev)
After(s, rq) == {e \in s : ~ById(rq, e) /\ ~ByAddress(rq, e)}
DExec(s, op) ==
    CASE op.o = "publish" -> {s \cup {op.ev}}
      [] op.o = "delete" ->
            IF op.isdel # (op.rq.kind = 5) THEN {}
            ELSE IF op.rq.kind = 5 THEN (IF op.r = 0 /\ Parsed(op.rq, op.p) /\ Held(s, op) /\ Judged(op) THEN {After(s, op.rq)} ELSE {})
            ELSE IF op.r # 0 /\ Nothing(op.p) THEN {s} ELSE {}
         \* an allocation failed while parsing: the whole request or nothing
      [] op.o = "deleteoom" -> IF op.r = 0 THEN (IF Parsed(op.rq, op.p) THEN {s} ELSE {}) ELSE IF Nothing(op.p) THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
