------------------------------- MODULE Nip05 -------------------------------
(* P18.  Internet identifiers (NIP-05).  State: the document a domain serves *)
(* at /.well-known/nostr.json.  doc = [ok, names, relays]: ok FALSE for text *)
(* that is not a JSON object; names/relays: <<>> when the member is absent,  *)
(* <<"other">> when it is not an object, else <<entries>>.                   *)
EXTENDS Bytes
NoDoc == [ok |-> FALSE, names |-> <<>>, relays |-> <<>>]
LocalChar(c) == (97 <= c /\ c <= 122) \/ (65 <= c /\ c <= 90) \/ IsDigit(c) \/ c \in {45, 95, 46}
LocalOk(n) == Len(n) \in 1..64 /\ AllIn(n, LocalChar)
DomainChar(c) == LocalChar(c) /\ c # 95
DomainOk(d) == /\ Len(d) \in 1..256 /\ AllIn(d, DomainChar) /\ 46 \in Range(d) /\ d[1] # 46 /\ d[Len(d)] # 46
               /\ \A i \in 1..(Len(d) - 1) : ~(d[i] = 46 /\ d[i + 1] = 46)
At(id) == IndexOf(id, 64)
NamePart(id) == SubSeq(id, 1, At(id) - 1)
DomainPart(id) == SubSeq(id, At(id) + 1, Len(id))
IdOk(id) == At(id) > 0 /\ LocalOk(NamePart(id)) /\ DomainOk(DomainPart(id))
Https == <<104, 116, 116, 112, 115, 58, 47, 47>>
Path == <<47, 46, 119, 101, 108, 108, 45, 107, 110, 111, 119, 110, 47, 110, 111, 115, 116, 114, 46, 106, 115, 111, 110, 63, 110, 97, 109, 101, 61>>
UrlOf(n, d) == Https \o d \o Path \o n
Wss == <<119, 115, 115, 58, 47, 47>>
Ws == <<119, 115, 58, 47, 47>>
RelayUrlOk(u) == Len(u) >= 6 /\ (StartsWith(u, Wss) \/ StartsWith(u, Ws))
KeyOk(v) == Len(v) = 64 /\ AllIn(v, IsHex)
Entries(m) == IF m = <<>> THEN <<>> ELSE IF m[1].obj THEN m[1].e ELSE <<>>
\* the keys the document gives to name n (a document may name it more than once: any of them)
KeysOf(doc, n) == {Entries(doc.names)[i] : i \in {j \in 1..Len(Entries(doc.names)) : Entries(doc.names)[j].k = n}}
Good(x) == x.str /\ KeyOk(x.v)
\* URLs the document writes with \u escapes (esc) may be left out, but not misread
Plain(x) == FoldLeft(LAMBDA a, j : IF x.esc[j] THEN a ELSE Append(a, x.urls[j]), <<>>, [j \in 1..Len(x.urls) |-> j])
RelayLists(doc, pk) == LET e == Entries(doc.relays) ix == {i \in 1..Len(e) : e[i].k = pk}
                       IN IF ix = {} THEN {<<>>} ELSE {SelectSeq(e[i].urls, RelayUrlOk) : i \in ix} \cup {SelectSeq(Plain(e[i]), RelayUrlOk) : i \in ix}
TooMany(doc, pk) == \E i \in 1..Len(Entries(doc.relays)) : Entries(doc.relays)[i].k = pk /\ Len(Entries(doc.relays)[i].urls) > 100
QueryOk(n) == Len(n) \in 1..64 /\ 34 \notin Range(n) /\ 92 \notin Range(n)
\* what a look-up may answer
Found(doc, n, pk, rel, want) == \E x \in KeysOf(doc, n) : Good(x) /\ pk = Lower(x.v) /\ (IF want THEN rel \in RelayLists(doc, pk) ELSE rel = <<>>)
CanFail(doc, n, want) == ~QueryOk(n) \/ (\E x \in KeysOf(doc, n) : ~Good(x) \/ (want /\ TooMany(doc, Lower(x.v)))) \/ KeysOf(doc, n) = {}
Verdict(doc, n, op, want) == IF op.r = 0 THEN QueryOk(n) /\ Found(doc, n, op.pk, op.relays, want) ELSE op.relays = <<>> /\ (CanFail(doc, n, want) \/ op.oom)
Exec(s, op) ==
    CASE op.o = "serve" -> {op.doc}
      [] op.o = "parse" -> IF op.r = 0 THEN (IF IdOk(op.id) /\ op.nsize > Len(NamePart(op.id)) /\ op.dsize > Len(DomainPart(op.id))
                                                 /\ op.name = Lower(NamePart(op.id)) /\ op.domain = Lower(DomainPart(op.id)) THEN {s} ELSE {})
                           ELSE IF ~IdOk(op.id) \/ op.nsize <= Len(NamePart(op.id)) \/ op.dsize <= Len(DomainPart(op.id)) THEN {s} ELSE {}
      [] op.o = "url" -> LET fits == Len(op.name) <= 64 /\ Len(op.domain) <= 256 /\ op.size > Len(UrlOf(op.name, op.domain)) IN
                         IF (op.r = 0 /\ fits /\ op.url = UrlOf(op.name, op.domain)) \/ (op.r # 0 /\ ~fits) THEN {s} ELSE {}
      [] op.o = "look" -> IF ~s.ok \/ Verdict(s, op.name, op, op.want) THEN {s} ELSE {}
         \* http: 0 when the fetch succeeded; the document is what the domain serves
      [] op.o = "verify" -> LET n == Lower(NamePart(op.id)) d == Lower(DomainPart(op.id)) IN
            IF ~IdOk(op.id) THEN (IF op.r # 0 /\ op.asked = <<>> /\ op.relays = <<>> THEN {s} ELSE {})
            ELSE IF op.asked # <<UrlOf(n, d)>> THEN {}
            ELSE IF op.http # 0 \/ op.nothing THEN (IF op.r # 0 /\ op.relays = <<>> THEN {s} ELSE {})
            ELSE IF op.r = 0 THEN (IF Len(op.expected) = 64 /\ (~s.ok \/ Found(s, n, Lower(op.expected), op.relays, op.want)) THEN {s} ELSE {})
            ELSE IF op.relays = <<>> /\ (~s.ok \/ op.oom \/ CanFail(s, n, op.want) \/ \E x \in KeysOf(s, n) : ~(Len(op.expected) = 64 /\ Lower(x.v) = Lower(op.expected))) THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
