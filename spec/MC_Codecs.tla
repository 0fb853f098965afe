--------------------------- MODULE MC_Codecs ---------------------------
EXTENDS Codecs, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, n
Rep(x, k) == [i \in 1..k |-> x]
Parts == {<<48>>, <<97>>, <<65>>, <<58>>, <<103>>, <<32>>, <<127>>, <<200>>, Rep(98, 63), <<57, 58>> \o Rep(99, 64), Rep(49, 62)}
Init == s = <<>> /\ n = 0
Next == n < Depth /\ n' = n + 1 /\ \E p \in Parts : s' = s \o p
\* hex both ways
RoundTrip == (Len(s) % 2 = 0 /\ AllIn(s, IsHex)) => HexOf(UnHex(s)) = Lower(s)
RoundTrip2 == LET b == s IN UnHex(HexOf(b)) = b /\ (Len(b) = 32 => Hex64(HexOf(b))) /\ Decodes(HexOf(b), Len(b)) /\ (b # <<>> => ~Decodes(HexOf(b), Len(b) - 1))
\* the kinds of text are related as the callers assume
Related == /\ Hex64(s) => HexPrefix(s) /\ SubId(s) /\ Decodes(s, 32)
           /\ Address(s) => Len(s) >= 67 /\ \E i \in 1..Len(s) : NumeralVal(SubSeq(s, 1, i)).d # <<>>
           /\ HexPrefix(s) => SubId(s)
           /\ Indexable(s) => Len(s) = 1
Emit == CSVWrite("%1$s", <<ToJson([s |-> s])>>, IOEnv.GEN)
=============================================================================
