------------------------------- MODULE Bech32 -------------------------------
(* Bech32 (BIP-173): regrouping of bits, checksum, text.                      *)
EXTENDS Bytes, Bitwise
Charset == <<113,112,122,114,121,57,120,56,103,102,50,116,118,100,119,48,115,51,106,110,53,52,107,104,99,101,54,109,117,97,55,108>>
Gen5 == <<996825010, 642813549, 513874426, 1027748829, 705979059>>
X2(a, b) == a ^^ b
\* the combined generator for each value of the top five bits
GenOf == TLCEval([t \in 0..31 |-> FoldLeft(X2, 0, [j \in 1..5 |-> IF (t \div (2 ^ (j - 1))) % 2 = 1 THEN Gen5[j] ELSE 0])])
Step(c, v) == (((c % 33554432) * 32) + v) ^^ GenOf[c \div 33554432]
Polymod(vs) == FoldLeft(Step, 1, vs)
Expand(h) == [i \in 1..Len(h) |-> h[i] \div 32] \o <<0>> \o [i \in 1..Len(h) |-> h[i] % 32]
Checksum(h, g) == LET p == Polymod(Expand(h) \o g \o <<0,0,0,0,0,0>>) ^^ 1 IN [i \in 1..6 |-> (p \div (32 ^ (6 - i))) % 32]
Verifies(h, g) == Polymod(Expand(h) \o g) = 1
\* regrouping of bits
To5(bs) == [j \in 1..((8 * Len(bs) + 4) \div 5) |->
              LET b == 5 * (j - 1) k == b \div 8 IN ((bs[k + 1] * 256 + (IF k + 2 <= Len(bs) THEN bs[k + 2] ELSE 0)) \div (2 ^ (11 - (b % 8)))) % 32]
PadOk(g) == LET l == (5 * Len(g)) % 8 IN l < 5 /\ (Len(g) = 0 \/ g[Len(g)] % (2 ^ l) = 0)
At5(g, i) == IF i <= Len(g) THEN g[i] ELSE 0
To8(g) == [i \in 1..((5 * Len(g)) \div 8) |-> LET b == 8 * (i - 1) k == b \div 5 IN ((At5(g, k + 1) * 1024 + At5(g, k + 2) * 32 + At5(g, k + 3)) \div (2 ^ (7 - (b % 5)))) % 256]
One == 49
Encode(h, bs) == LET g == TLCEval(To5(bs)) c == TLCEval(g \o Checksum(h, g)) IN h \o <<One>> \o [i \in 1..Len(c) |-> Charset[c[i] + 1]]
CharSet == Range(Charset)
ValOf == TLCEval([c \in CharSet |-> (CHOOSE i \in 1..32 : Charset[i] = c) - 1])
LastOne(t) == LET ix == {i \in 1..Len(t) : t[i] = One} IN IF ix = {} THEN 0 ELSE CHOOSE i \in ix : \A j \in ix : j <= i
Bad == [ok |-> FALSE, h |-> <<>>, bs |-> <<>>]
Decode(t) == LET p == LastOne(t) h == SubSeq(t, 1, p - 1) d == SubSeq(t, p + 1, Len(t)) IN
    IF p <= 1 \/ Len(d) < 6 \/ ~AllIn(d, LAMBDA c : c \in CharSet) THEN Bad
    ELSE LET g == TLCEval([i \in 1..Len(d) |-> ValOf[d[i]]]) b == SubSeq(g, 1, Len(g) - 6) IN
         IF ~Verifies(h, g) \/ ~PadOk(b) THEN Bad ELSE [ok |-> TRUE, h |-> h, bs |-> To8(b)]
Printable(h) == AllIn(h, LAMBDA c : c \in 33..126)
HasUpper(t) == \E i \in 1..Len(t) : t[i] \in 65..90
HasLower(t) == \E i \in 1..Len(t) : t[i] \in 97..122
\* BIP-173 also lets a reader take an all-capitals text
Readings(t) == {Decode(t)} \cup (IF HasUpper(t) /\ ~HasLower(t) THEN {Decode(Lower(t))} ELSE {})
=============================================================================
