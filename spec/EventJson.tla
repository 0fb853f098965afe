----------------------------- MODULE EventJson -----------------------------
(* P03.  JSON form of events: parsing a well-formed event object yields     *)
(* exactly its fields, independent of formatting; printing an event yields  *)
(* JSON that denotes exactly its fields; what is not an event, or exceeds   *)
(* the configured limits, is rejected and leaves nothing behind.            *)
(* State: the configured limits (none until a configuration is installed).  *)
EXTENDS Bytes
NoLimits == [set |-> FALSE, maxTags |-> 0, maxContent |-> 0, maxValues |-> 0]

IsHexN(s, n) == Len(s) = 2 * n /\ AllIn(s, IsHex)
IsInt(n) == n.int           \* the JSON number is an integer
NumVal(n) == [neg |-> n.neg, d |-> n.d]
KindOk(n) == IsInt(n) /\ ~n.neg /\ NumLeq(n, [neg |-> FALSE, d |-> <<6,5,5,3,5>>])
WellFormed(src) ==
    /\ IsHexN(src.id, 32) /\ IsHexN(src.pubkey, 32) /\ IsHexN(src.sig, 64)
    /\ KindOk(src.kind) /\ IsInt(src.created_at)
    /\ \A i \in 1..Len(src.tags) : Len(src.tags[i]) > 0
WithinLimits(s, src) == s.set => /\ Len(src.tags) <= s.maxTags
                                 /\ Len(src.content) <= s.maxContent
                                 /\ \A i \in DOMAIN src.tags : Len(src.tags[i]) <= s.maxValues
Denotes(src, ev) ==
    /\ ev.id = Lower(src.id) /\ ev.pubkey = Lower(src.pubkey) /\ ev.sig = Lower(src.sig)
    /\ NumVal(src.kind) = ev.kind /\ NumVal(src.created_at) = ev.created_at
    /\ ev.tags = src.tags /\ ev.content = src.content


Exec(s, op) ==
    CASE op.o = "config" -> IF op.r = 0 THEN {[set |-> TRUE, maxTags |-> op.maxTags, maxContent |-> op.maxContent, maxValues |-> op.maxValues]} ELSE {}
         \* src: the fields of the JSON object that was rendered into the input text
      [] op.o = "parse" ->
            IF WellFormed(op.src) /\ WithinLimits(s, op.src)
            THEN IF op.r = 0 /\ Denotes(op.src, op.ev) THEN {s} ELSE {}
            ELSE IF op.r # 0 /\ op.null THEN {s} ELSE {}
         \* text that is not JSON, or JSON cut short by the length argument
      [] op.o = "garbage" -> IF op.r # 0 /\ op.null THEN {s} ELSE {}
         \* ev printed, and the text read by an independent JSON reader: src
      [] op.o = "print" -> IF op.r = 0 /\ WellFormed(op.src) /\ Denotes(op.src, op.ev) THEN {s} ELSE {}
         \* printing into a caller's buffer: same text, never truncated silently
      [] op.o = "printbuf" ->
            IF /\ op.r = (IF op.n > op.full THEN "OK" ELSE "BUFFER_TOO_SMALL") /\ op.len = op.full
               /\ op.r = "OK" => op.same
            THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
