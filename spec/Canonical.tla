----------------------------- MODULE Canonical -----------------------------
(* P02.  The NIP-01 canonical serialization and the event id.               *)
(*   [0,"<pubkey hex>",<created_at>,<kind>,<tags>,"<content>"]              *)
(* with no white space and the fixed escaping below; the id is the SHA-256  *)
(* of exactly these bytes.                                                  *)
EXTENDS Bytes

Esc(c) == CASE c = 34 -> <<92, 34>>
            [] c = 92 -> <<92, 92>>
            [] c = 8  -> <<92, 98>>
            [] c = 9  -> <<92, 116>>
            [] c = 10 -> <<92, 110>>
            [] c = 12 -> <<92, 102>>
            [] c = 13 -> <<92, 114>>
            [] c < 32 -> <<92, 117, 48, 48, HexDigit(c \div 16), HexDigit(c % 16)>>
            [] OTHER  -> <<c>>
Quote(s) == <<34>> \o FlattenSeq([i \in 1..Len(s) |-> Esc(s[i])]) \o <<34>>
\* comma separated
Join(ss) == FlattenSeq([i \in 1..Len(ss) |-> IF i = 1 THEN ss[i] ELSE <<44>> \o ss[i]])
Arr(ss) == <<91>> \o Join(ss) \o <<93>>
TagJson(t) == Arr([i \in 1..Len(t) |-> Quote(t[i])])
Canon(e) == Arr(<< <<48>>, Quote(HexOf(e.pk)), DecOf(e.at), Digits(NatDigits(e.kind)),
                   Arr([i \in 1..Len(e.tags) |-> TagJson(e.tags[i])]), Quote(e.content) >>)

\* r: result name; n: buffer size; len: reported length; out: buffer contents (<<>> on failure)
Exec(s, op) ==
    CASE op.o = "canon" ->
            LET c == Canon(op.ev) IN
            IF /\ op.r = IF op.n > Len(c) THEN "OK" ELSE "BUFFER_TOO_SMALL"
               /\ op.len = Len(c)
               /\ op.r = "OK" => op.out = c /\ op.nul
            THEN {s} ELSE {}
         \* h is SHA-256 of op.out computed outside the library
      [] op.o = "id" -> IF op.r = 0 /\ op.out = Canon(op.ev) /\ op.id = op.h THEN {s} ELSE {}
         \* without memory there is an error and the id stays, or the id is right
      [] op.o = "lack" -> IF (op.r = 0 /\ op.out = Canon(op.ev) /\ op.id = op.h) \/ (op.r # 0 /\ op.oom /\ op.id = op.old) THEN {s} ELSE {}
         \* the id has no memory: computing it twice, or on a copy, gives the same value and changes nothing else
      [] op.o = "again" -> IF op.same THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
