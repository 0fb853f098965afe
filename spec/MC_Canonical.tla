--------------------------- MODULE MC_Canonical ---------------------------
(* Small-scope theorem: the canonical form is injective, so two different   *)
(* events never share an id (up to SHA-256 collisions); and the same set of *)
(* events is emitted for replay in the real code.                           *)
EXTENDS Canonical, Json, IOUtils, CSV
CONSTANTS Alpha, TLen, CLen
VARIABLE e
StrN(n) == UNION {[1..k -> Alpha] : k \in 0..n}
Tag == {<<a>> : a \in StrN(TLen)} \cup {<<a, b>> : a, b \in StrN(TLen)}
TagLists == {<<>>} \cup {<<t>> : t \in Tag} \cup {<<t, u>> : t, u \in Tag}
Ev == [pk : {<<171>>}, at : {[neg |-> FALSE, d |-> <<0>>]}, kind : {1}, tags : TagLists, content : StrN(CLen)]
   \cup [pk : {<<171>>}, at : {[neg |-> FALSE, d |-> <<1, 0>>], [neg |-> TRUE, d |-> <<1>>]}, kind : {1, 11},
         tags : {<<>>}, content : StrN(CLen)]
Injective == Cardinality({Canon(x) : x \in Ev}) = Cardinality(Ev)
ASSUME Injective
\* unescaping is a left inverse of escaping (so content survives)
RECURSIVE Unq(_)
Unq(s) == IF s = <<>> THEN <<>>
          ELSE IF s[1] # 92 THEN <<s[1]>> \o Unq(Tail(s))
          ELSE IF s[2] = 117 THEN <<HexVal(s[5]) * 16 + HexVal(s[6])>> \o Unq(SubSeq(s, 7, Len(s)))
          ELSE <<CASE s[2] = 34 -> 34 [] s[2] = 92 -> 92 [] s[2] = 98 -> 8 [] s[2] = 116 -> 9 [] s[2] = 110 -> 10
                   [] s[2] = 102 -> 12 [] s[2] = 114 -> 13>> \o Unq(SubSeq(s, 3, Len(s)))
ASSUME \A c \in 1..255, d \in {34, 92, 110, 117, 1} : LET q == Quote(<<c, d, c>>) IN Unq(SubSeq(q, 2, Len(q) - 1)) = <<c, d, c>>
ASSUME \A c \in 0..255 : \A i \in 1..Len(Esc(c)) : Esc(c)[i] >= 32      \* no raw control character in the output
Init == e \in Ev
Next == UNCHANGED e
Emit == CSVWrite("%1$s", <<ToJson(<<[o |-> "ev", ev |-> e]>>)>>, IOEnv.GEN)
=============================================================================
