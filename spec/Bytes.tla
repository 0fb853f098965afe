------------------------------- MODULE Bytes -------------------------------
(* Byte strings as sequences of 0..255, and decimal numbers as digit        *)
(* sequences (TLC integers have 32 bits; values here have 64).              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexOf(bs) == FlattenSeq([i \in 1..Len(bs) |-> <<HexDigit(bs[i] \div 16), HexDigit(bs[i] % 16)>>])
IsLowerHex(c) == (48 <= c /\ c <= 57) \/ (97 <= c /\ c <= 102)
IsHex(c) == IsLowerHex(c) \/ (65 <= c /\ c <= 70)
IsDigit(c) == 48 <= c /\ c <= 57
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
AllIn(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
UnHex(s) == [i \in 1..(Len(s) \div 2) |-> HexVal(s[2*i-1]) * 16 + HexVal(s[2*i])]
Lower(s) == [i \in 1..Len(s) |-> IF 65 <= s[i] /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

\* numbers: [neg |-> BOOLEAN, d |-> sequence of decimal digits, most significant first, no leading zeros]
Digits(d) == [i \in 1..Len(d) |-> 48 + d[i]]
DecOf(n) == (IF n.neg THEN <<45>> ELSE <<>>) \o Digits(n.d)
\* comparison of magnitudes
MagLess(a, b) == \/ Len(a) < Len(b)
                 \/ /\ Len(a) = Len(b)
                    /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
NumLess(a, b) == IF a.neg THEN (IF b.neg THEN MagLess(b.d, a.d) ELSE TRUE)
                 ELSE (IF b.neg THEN FALSE ELSE MagLess(a.d, b.d))
NumLeq(a, b) == ~NumLess(b, a)
NumZero(a) == a.d = <<0>>
NonNegNum(d) == [neg |-> FALSE, d |-> d]
StripZeros(d) == LET nz == {i \in 1..Len(d) : d[i] # 0}
                 IN IF nz = {} THEN <<0>> ELSE SubSeq(d, CHOOSE i \in nz : \A j \in nz : i <= j, Len(d))
\* addition of non-negative magnitudes (least significant digit last)
RECURSIVE AddRev(_, _, _)
AddRev(a, b, c) == IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                   ELSE LET x == (IF a = <<>> THEN 0 ELSE Head(a)) + (IF b = <<>> THEN 0 ELSE Head(b)) + c
                        IN <<x % 10>> \o AddRev(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), x \div 10)
MagAdd(a, b) == StripZeros(Reverse(AddRev(Reverse(a), Reverse(b), 0)))
RECURSIVE SubRev(_, _, _)
SubRev(a, b, c) == IF a = <<>> THEN <<>>
                   ELSE LET x == Head(a) - (IF b = <<>> THEN 0 ELSE Head(b)) - c
                        IN <<(IF x < 0 THEN x + 10 ELSE x)>> \o SubRev(Tail(a), IF b = <<>> THEN b ELSE Tail(b), IF x < 0 THEN 1 ELSE 0)
MagSub(a, b) == StripZeros(Reverse(SubRev(Reverse(a), Reverse(b), 0)))     \* requires b <= a
Num(neg, d) == [neg |-> neg /\ d # <<0>>, d |-> d]
NumAdd(a, b) == IF a.neg = b.neg THEN Num(a.neg, MagAdd(a.d, b.d))
                ELSE IF MagLess(a.d, b.d) THEN Num(b.neg, MagSub(b.d, a.d)) ELSE Num(a.neg, MagSub(a.d, b.d))
\* decimal digits of a small natural
RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<n>> ELSE Append(NatDigits(n \div 10), n % 10)
SmallNum(n) == IF n < 0 THEN Num(TRUE, NatDigits(-n)) ELSE Num(FALSE, NatDigits(n))

\* an unsigned decimal numeral (non-empty, digits only) as a number
IsNumeral(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(s[i])
NumeralVal(s) == Num(FALSE, StripZeros([i \in 1..Len(s) |-> s[i] - 48]))
I64Max == [neg |-> FALSE, d |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>]
U32Max == [neg |-> FALSE, d |-> <<4,2,9,4,9,6,7,2,9,5>>]
U64Max == [neg |-> FALSE, d |-> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>]

\* split on a separator byte
Split(s, sep) == LET ix == TLCEval(SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = sep))
                     b == TLCEval(<<0>> \o ix \o <<Len(s) + 1>>)
                 IN TLCEval([i \in 1..(Len(b) - 1) |-> SubSeq(s, b[i] + 1, b[i+1] - 1)])
IndexOf(s, c) == LET ix == {i \in 1..Len(s) : s[i] = c} IN IF ix = {} THEN 0 ELSE CHOOSE i \in ix : \A j \in ix : i <= j
=============================================================================
