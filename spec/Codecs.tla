------------------------------- MODULE Codecs -------------------------------
(* P10.  What counts as well-formed, and hex both ways.  State: a register  *)
(* holding the last text handled (so that histories compose encodings and   *)
(* decodings of the same value).                                            *)
EXTENDS Bytes
Hex64(s) == Len(s) = 64 /\ AllIn(s, IsLowerHex)
HexPrefix(s) == Len(s) \in 1..64 /\ AllIn(s, IsLowerHex)
SubId(s) == Len(s) \in 1..64 /\ AllIn(s, LAMBDA c : 32 <= c /\ c <= 126)
\* kind:pubkey:d
Address(s) == LET i == IndexOf(s, 58) IN
    /\ i > 1 /\ \A j \in 1..(i-1) : IsDigit(s[j])
    /\ Len(s) >= i + 65 /\ s[i + 65] = 58
    /\ Hex64(SubSeq(s, i + 1, i + 64))
Indexable(s) == Len(s) = 1 /\ ((97 <= s[1] /\ s[1] <= 122) \/ (65 <= s[1] /\ s[1] <= 90))
Valid(f, s) == CASE f = "hex64" -> Hex64(s) [] f = "prefix" -> HexPrefix(s) [] f = "sub" -> SubId(s) [] f = "address" -> Address(s) [] f = "indexable" -> Indexable(s)
\* decoding into cap bytes
Decodes(hex, cap) == Len(hex) % 2 = 0 /\ Len(hex) \div 2 <= cap /\ AllIn(hex, IsHex)
Init0 == <<>>
Exec(s, op) ==
    CASE op.o = "valid" -> IF op.r = Valid(op.f, op.s) THEN {op.s} ELSE {}
      [] op.o = "decode" -> IF Decodes(op.hex, op.cap) THEN (IF op.r = 0 /\ op.out = UnHex(op.hex) THEN {op.hex} ELSE {})
                            ELSE IF op.r # 0 THEN {op.hex} ELSE {}
         \* a fixed-size field: exactly the stated number of digits
      [] op.o = "field" -> IF Len(op.hex) = 2 * op.size /\ AllIn(op.hex, IsHex) THEN (IF op.r = 0 /\ op.out = UnHex(op.hex) THEN {op.hex} ELSE {})
                           ELSE IF op.r # 0 THEN {op.hex} ELSE {}
      [] op.o = "encode" -> IF op.r = 0 THEN (IF op.cap > 2 * Len(op.b) /\ op.out = HexOf(op.b) THEN {op.out} ELSE {})
                            ELSE IF op.cap <= 2 * Len(op.b) THEN {s} ELSE {}
         \* decoding what was just encoded
      [] op.o = "again" -> IF op.r = 0 /\ HexOf(op.out) = Lower(s) THEN {s} ELSE {}
      [] op.o = "cmp" -> IF (op.r = 0) = (op.a = op.b) THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
