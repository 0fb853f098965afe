------------------------------ MODULE Entities ------------------------------
(* P23.  Shareable identifiers: bech32 (BIP-173), NIP-19 entities and NIP-21 *)
(* URIs.  State: the texts issued so far with what they stand for.           *)
EXTENDS Bech32
Npub == <<110,112,117,98>>
Nsec == <<110,115,101,99>>
Note == <<110,111,116,101>>
Nprofile == <<110,112,114,111,102,105,108,101>>
Nevent == <<110,101,118,101,110,116>>
Naddr == <<110,97,100,100,114>>
Nrelay == <<110,114,101,108,97,121>>
Kinds == {Npub, Nsec, Note, Nprofile, Nevent, Naddr, Nrelay}
Bare == {Npub, Nsec, Note}
\* ---- type-length-value
Wss == <<119,115,115,58,47,47>>
Ws == <<119,115,58,47,47>>
UrlOk(u) == Len(u) \in 6..255 /\ (StartsWith(u, Wss) \/ StartsWith(u, Ws)) /\ AllIn(u, LAMBDA c : c \in 33..126)
NoTlv == [ok |-> FALSE, l |-> <<>>, tail |-> FALSE]
RECURSIVE Tlv(_, _, _)
Tlv(b, p, acc) == IF p > Len(b) THEN [ok |-> TRUE, l |-> acc, tail |-> FALSE]
                  ELSE IF p = Len(b) THEN [ok |-> TRUE, l |-> acc, tail |-> TRUE]      \* a lone byte at the end
                  ELSE IF p + 1 + b[p + 1] > Len(b) THEN NoTlv
                  ELSE Tlv(b, p + 2 + b[p + 1], Append(acc, [t |-> b[p], v |-> SubSeq(b, p + 2, p + 1 + b[p + 1])]))
OfType(l, t) == SelectSeq(l, LAMBDA x : x.t = t)
Vals(l) == [i \in 1..Len(l) |-> l[i].v]
MaxRelays == 16
RelaysOf(l) == LET u == SelectSeq(Vals(OfType(l, 1)), UrlOk) IN IF Len(u) > MaxRelays THEN SubSeq(u, 1, MaxRelays) ELSE u
\* optional parts: <<>> or <<v>>; a repeated part may be read as any of its occurrences
Opt(l, t, n) == LET x == SelectSeq(Vals(OfType(l, t)), LAMBDA v : Len(v) = n) IN IF x = <<>> THEN {<<>>} ELSE {<<x[i]>> : i \in 1..Len(x)}
SpecialOk(h, v) == CASE h \in {Nprofile, Nevent} -> Len(v) = 32
                     [] h = Naddr -> Len(v) <= 255
                     [] h = Nrelay -> Len(v) \in 1..255
                     [] OTHER -> FALSE
SpecialsOf(h, l) == LET x == Vals(OfType(l, 0)) IN IF x = <<>> THEN (IF h = Naddr THEN {<<>>} ELSE {}) ELSE {x[i] : i \in 1..Len(x)}
\* a text field of a C struct ends at the first NUL
Text(v) == LET z == IndexOf(v, 0) IN IF z = 0 THEN v ELSE SubSeq(v, 1, z - 1)
Shown(h, v) == IF h \in {Naddr, Nrelay} THEN Text(v) ELSE v
Full(h, a, k) == h # Naddr \/ (a # <<>> /\ k # <<>>)
Fields(h, l) == {[special |-> Shown(h, sp), relays |-> IF h = Nrelay THEN <<>> ELSE RelaysOf(l), author |-> a, kind |-> k]
                  : sp \in {x \in SpecialsOf(h, l) : SpecialOk(h, x)},
                    a \in (IF h \in {Nevent, Naddr} THEN Opt(l, 2, 32) ELSE {<<>>}), k \in (IF h \in {Nevent, Naddr} THEN Opt(l, 3, 4) ELSE {<<>>})}
\* the values a text of kind h stands for
Values(h, t) == UNION {IF ~d.ok \/ d.h # h THEN {}
                       ELSE IF h \in Bare THEN (IF Len(d.bs) = 32 THEN {[special |-> d.bs, relays |-> <<>>, author |-> <<>>, kind |-> <<>>]} ELSE {})
                       ELSE LET x == TLCEval(Tlv(d.bs, 1, <<>>)) IN IF ~x.ok THEN {} ELSE {f \in Fields(h, x.l) : Full(h, f.author, f.kind)} : d \in Readings(t)}
\* texts a reader may refuse although they can be read: capitals, a lone trailing byte, repeated or odd-sized parts, a NUL inside
Doubtful(h, t) == \/ HasUpper(t)
                  \/ /\ h \notin Bare
                     /\ LET x == TLCEval(Tlv(Decode(t).bs, 1, <<>>)) IN
                       (x.tail \/ (Len(OfType(x.l, 0)) # 1 /\ h # Naddr) \/ Len(OfType(x.l, 0)) > 1 \/ Len(OfType(x.l, 2)) > 1 \/ Len(OfType(x.l, 3)) > 1
                        \/ (\E i \in 1..Len(x.l) : (x.l[i].t = 2 /\ Len(x.l[i].v) # 32) \/ (x.l[i].t = 3 /\ Len(x.l[i].v) # 4) \/ (x.l[i].t = 0 /\ 0 \in Range(x.l[i].v) /\ h \in {Naddr, Nrelay}))
                        \/ Len(Decode(t).bs) > (IF h = Nrelay THEN 512 ELSE 4096))
Reads(h, t, r, v, oom) == IF r = 0 THEN v \in Values(h, t) ELSE oom \/ Values(h, t) = {} \/ Doubtful(h, t)
\* ---- writing: at most MaxRelays relays; those that no reader would take may be left out
TlvLen(h, v, rel) == (IF h = Naddr /\ v.special = <<>> THEN 2 ELSE 2 + Len(v.special)) + FoldLeft(LAMBDA a, u : a + 2 + Len(u), 0, rel)
                     + (IF v.author = <<>> THEN 0 ELSE 34) + (IF v.kind = <<>> THEN 0 ELSE 6)
Room(h, n) == Len(h) + 1 + ((8 * n + 4) \div 5) + 6 + 1
Writable(v) == [v EXCEPT !.relays = SelectSeq(@, UrlOk)]
MaxRoom(h, v) == IF h \in Bare THEN Room(h, 32) ELSE Room(h, TlvLen(h, v, SelectSeq(v.relays, LAMBDA u : Len(u) <= 255)))
Writes(h, v, size, r, t, oom) == IF r = 0 THEN size > Len(t) /\ t # <<>> /\ Writable(v) \in Values(h, t) /\ ~HasUpper(t) /\ Decode(t).h = h
                                 ELSE oom \/ size < MaxRoom(h, v) \/ (h = Nrelay /\ Len(v.special) \notin 1..255)
Scheme == <<110,111,115,116,114,58>>
Entity(u) == SubSeq(u, 7, Len(u))
KindOf(u) == IF ~StartsWith(u, Scheme) THEN <<>> ELSE LET e == Entity(u) p == IndexOf(e, One) h == SubSeq(e, 1, p - 1) IN IF p > 0 /\ h \in Kinds THEN h ELSE <<>>
Exec(s, op) ==
    CASE op.o = "write" -> IF Writes(op.h, op.v, op.size, op.r, op.t, op.oom) THEN (IF op.r = 0 THEN {s \cup {[h |-> op.h, t |-> op.t, v |-> Writable(op.v)]}} ELSE {s}) ELSE {}
      [] op.o = "read" -> IF Reads(op.h, op.t, op.r, op.v, op.oom) /\ (op.r = 0 => \A x \in s : x.h = op.h /\ x.t = op.t => x.v = op.v) /\ (op.r # 0 => op.v.relays = <<>>) THEN {s} ELSE {}
         \* a key under any prefix
      [] op.o = "writekey" -> LET need == Len(op.h) + 60 IN
            IF op.r = 0 THEN (IF op.size >= need /\ (Printable(op.h) /\ ~HasUpper(op.h) => op.t = Encode(op.h, op.v)) THEN {s} ELSE {})
            ELSE IF op.size < need \/ op.h = <<>> \/ Len(op.h) > 31 \/ ~Printable(op.h) \/ HasUpper(op.h) \/ op.oom THEN {s} ELSE {}
      [] op.o = "readkey" -> LET good == {d \in Readings(op.t) : d.ok /\ Len(d.bs) = 32} IN
            IF (op.r = 0 /\ (\E d \in good : d.bs = op.v \/ ~Printable(d.h))) \/ (op.r # 0 /\ (good = {} \/ Len(op.t) > 90 \/ HasUpper(op.t) \/ ~Printable(op.t) \/ op.oom)) \/ (op.r = 0 /\ ~Printable(op.t)) THEN {s} ELSE {}
      [] op.o = "writeuri" -> IF op.r = 0 THEN (IF StartsWith(op.t, Scheme) /\ Writes(op.h, op.v, op.size - 6, 0, Entity(op.t), op.oom) THEN {s \cup {[h |-> op.h, t |-> Entity(op.t), v |-> Writable(op.v)]}} ELSE {})
                              ELSE IF Writes(op.h, op.v, op.size - 6, op.r, <<>>, op.oom) THEN {s} ELSE {}
      [] op.o = "readuri" -> LET h == KindOf(op.t) IN
            IF op.r # 0 THEN (IF h = <<>> \/ Reads(h, Entity(op.t), op.r, op.v, op.oom) THEN {s} ELSE {})
            ELSE IF h # <<>> /\ op.h = h /\ Reads(h, Entity(op.t), 0, op.v, op.oom) THEN {s} ELSE {}
         \* disposing of a URI leaves no secret in it
      [] op.o = "dispose" -> IF op.wiped THEN {s} ELSE {}
      [] OTHER -> {}
Faithful(s) == \A x \in s : x.v \in Values(x.h, x.t)
Distinct(s) == \A x, y \in s : x.h # y.h \/ x.v # y.v => x.t # y.t
=============================================================================
