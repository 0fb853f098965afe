----------------------------- MODULE TagStore -----------------------------
(* P04.  The tag list of an event as an append-only sequence, and the       *)
(* accessors as functions of it.                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt
NoMax == 0 - 1
New == [tags |-> <<>>, max |-> NoMax, maxv |-> NoMax, text |-> <<>>]   \* text: no content yet, or the content

Lim(s, v) == s.max # NoMax /\ (Len(s.tags) >= s.max \/ Len(v) > s.maxv)
WithValue(s, name) == SelectSeq(s.tags, LAMBDA t : Len(t) >= 2 /\ t[1] = name)
Named(s, name) == {i \in 1..Len(s.tags) : s.tags[i][1] = name}
SMin(S) == CHOOSE x \in S : \A y \in S : x <= y

MinN(a, b) == IF a < b THEN a ELSE b
HexChars == {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f"}
IsHex64(v) == Len(v) = 64 /\ \A i \in 1..64 : SubSeq(v, i, i) \in HexChars
Binary(s, name) == SelectSeq([i \in 1..Len(WithValue(s, name)) |-> WithValue(s, name)[i][2]], IsHex64)

\* optional results are sequences of length 0 or 1; index arguments count from 0 as in the API
Exec(s, op) ==
    CASE op.o = "config" -> IF op.r = 0 THEN {[s EXCEPT !.max = op.max, !.maxv = op.maxv]} ELSE {}
      [] op.o = "new"    -> {[s EXCEPT !.tags = <<>>, !.text = <<>>]}
      [] op.o = "add"    -> IF Lim(s, op.v) THEN (IF op.r # 0 THEN {s} ELSE {})
                            ELSE IF op.r = 0 THEN {[s EXCEPT !.tags = Append(@, op.v)]} ELSE {}
      [] op.o = "addbad" -> IF op.r # 0 THEN {s} ELSE {}           \* no values, or a NULL among them
         \* an allocation failed during the call: all or nothing
      [] op.o = "addoom" -> IF op.r # 0 THEN {s} ELSE IF Lim(s, op.v) THEN {} ELSE {[s EXCEPT !.tags = Append(@, op.v)]}
         \* the content: set as given, even to what it already is, or (no memory, no text) left as it was
      [] op.o = "content" -> IF op.r = 0 THEN {[s EXCEPT !.text = <<op.v>>]} ELSE {}
      [] op.o = "contentself" -> IF op.r = 0 THEN {s} ELSE {}
      [] op.o = "contentoom" -> IF op.r # 0 THEN {s} ELSE {[s EXCEPT !.text = <<op.v>>]}
      [] op.o = "contentbad" -> IF op.r # 0 THEN {s} ELSE {}
      [] op.o = "text"   -> IF op.v = s.text THEN {s} ELSE {}
      [] op.o = "derive" -> {s}                                    \* computing the id, signing, serialising
         \* the whole list as stored, and as the iterators walk it: after every change
      [] op.o = "dump"   -> IF op.v = s.tags THEN {s} ELSE {}
      [] op.o = "iter"   -> IF op.v = s.tags THEN {s} ELSE {}
      [] op.o = "iterinfo" -> IF op.v = [i \in 1..Len(s.tags) |-> <<s.tags[i][1], Tail(s.tags[i])>>] THEN {s} ELSE {}
      [] op.o = "count"  -> IF op.r = Len(s.tags) THEN {s} ELSE {}
      [] op.o = "at"     -> IF op.v = (IF op.i < Len(s.tags) THEN <<s.tags[op.i + 1]>> ELSE <<>>) THEN {s} ELSE {}
      [] op.o = "value"  -> IF op.v = (IF op.i < Len(s.tags) /\ op.j < Len(s.tags[op.i + 1]) THEN <<s.tags[op.i + 1][op.j + 1]>> ELSE <<>>)
                            THEN {s} ELSE {}
      [] op.o = "tagacc" -> IF op.i < Len(s.tags) /\ op.name = <<s.tags[op.i + 1][1]>> /\ op.n = Len(s.tags[op.i + 1]) THEN {s} ELSE {}
      [] op.o = "get"    -> IF op.v = (LET m == WithValue(s, op.name) IN IF m = <<>> THEN <<>> ELSE <<m[1][2]>>) THEN {s} ELSE {}
      [] op.o = "getall" -> IF op.v = (LET m == WithValue(s, op.name) IN [i \in 1..MinN(op.max, Len(m)) |-> m[i][2]]) THEN {s} ELSE {}
      [] op.o = "has"    -> IF op.r = (Named(s, op.name) # {}) THEN {s} ELSE {}
      [] op.o = "find"   -> IF op.v = (IF Named(s, op.name) = {} THEN <<>> ELSE <<s.tags[SMin(Named(s, op.name))]>>) THEN {s} ELSE {}
      [] op.o = "binary" -> IF op.v = Binary(s, op.name) THEN {s} ELSE {}
      [] op.o = "indexable" -> IF op.r = (op.one /\ op.letter) THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
