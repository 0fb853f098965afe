----------------------------- MODULE RelayList -----------------------------
(* P16.  A user's relay list (NIP-65).  State: the sequence of relays with   *)
(* their read/write flags; published as an event and read back unchanged.    *)
EXTENDS Bytes
Wss == <<119, 115, 115, 58, 47, 47>>
Ws == <<119, 115, 58, 47, 47>>
HostOk(u, p) == Len(u) > Len(p) /\ u[Len(p) + 1] \notin {47, 58, 63, 35, 64, 32}
UrlOk(u) == Len(u) <= 2048 /\ ((StartsWith(u, Wss) /\ HostOk(u, Wss)) \/ (StartsWith(u, Ws) /\ HostOk(u, Ws)))
MaxRelays == 256
Read == <<114, 101, 97, 100>>
Write == <<119, 114, 105, 116, 101>>
R == <<114>>
Entry(u, r, w) == [url |-> u, read |-> r, write |-> w]
Has(l, u) == \E i \in 1..Len(l) : l[i].url = u
CanAdd(l, e) == UrlOk(e.url) /\ (e.read \/ e.write) /\ Len(l) < MaxRelays /\ ~Has(l, e.url)
TagOf(e) == <<R, e.url>> \o (IF e.read /\ e.write THEN <<>> ELSE IF e.read THEN <<Read>> ELSE <<Write>>)
TagsOf(l) == [i \in 1..Len(l) |-> TagOf(l[i])]
FromTag(t) == LET m == IF Len(t) >= 3 THEN t[3] ELSE <<>> IN Entry(t[2], m # Write, m # Read)
RECURSIVE Fold(_, _, _)
Fold(tags, i, l) == IF i > Len(tags) THEN l
    ELSE Fold(tags, i + 1, IF Len(tags[i]) >= 2 /\ tags[i][1] = R /\ CanAdd(l, FromTag(tags[i])) THEN Append(l, FromTag(tags[i])) ELSE l)
FromTags(tags) == Fold(tags, 1, <<>>)
Urls(l, f) == LET m == SelectSeq(l, LAMBDA e : IF f = "read" THEN e.read ELSE e.write) IN [i \in 1..Len(m) |-> m[i].url]
Kind == 10002
Exec(s, op) ==
    CASE op.o = "create" -> IF op.r = 0 THEN {<<>>} ELSE {}
      [] op.o = "add" -> LET e == Entry(op.url, op.read, op.write) IN
            IF op.r = 0 THEN (IF CanAdd(s, e) THEN {Append(s, e)} ELSE {}) ELSE IF ~CanAdd(s, e) \/ op.oom THEN {s} ELSE {}
      [] op.o = "list" -> IF op.n = Len(s) /\ op.l = s /\ op.beyond THEN {s} ELSE {}
      [] op.o = "urls" -> IF (op.r = 0 /\ op.l = Urls(s, op.f)) \/ (op.r # 0 /\ op.oom) THEN {s} ELSE {}
      [] op.o = "to" -> IF (op.r = 0 /\ op.kind = Kind /\ op.content = <<>> /\ op.atok /\ op.tags = TagsOf(s)) \/ (op.r # 0 /\ op.oom) THEN {s} ELSE {}
         \* a list read from an event replaces the current one; a failure leaves it
      [] op.o = "from" -> IF op.r = 0 THEN (IF op.kind = Kind THEN {FromTags(op.tags)} ELSE {}) ELSE IF op.kind # Kind \/ op.oom THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
