------------------------------- MODULE Repost -------------------------------
(* P29.  Reposts, quotes and reactions: what is created for an event, and    *)
(* what is read back from whatever event arrives.  State: the event at hand, *)
(* [kind, content, tags].  Texts are byte sequences.                         *)
EXTENDS Bytes
E == <<101>>  PP == <<112>>  K == <<107>>  Q == <<113>>  AA == <<97>>
None == [kind |-> 0, content |-> <<>>, tags |-> <<>>]
IsId(x) == Len(x) = 64 /\ AllIn(x, IsHex)
NatText(n) == Digits(NatDigits(n))
Opt(o, d) == IF o = <<>> THEN d ELSE o[1]
Colon == <<58>>
RepostOf(a) == [kind |-> IF a.k = 1 THEN 6 ELSE 16, content |-> Opt(a.json, <<>>),
                tags |-> <<<<E, a.id, a.relay>>, <<PP, a.pk>>>> \o (IF a.k # 1 THEN <<<<K, NatText(a.k)>>>> ELSE <<>>)
                         \o (IF a.d # <<>> THEN <<<<AA, NatText(a.k) \o Colon \o a.pk \o Colon \o a.d[1]>>>> ELSE <<>>)]
ReactionOf(a) == [kind |-> 7, content |-> Opt(a.content, <<43>>),
                  tags |-> <<<<E, a.id, Opt(a.relay, <<>>), a.pk>>, <<PP, a.pk>> \o a.relay>> \o (IF a.k # 0 THEN <<<<K, NatText(a.k)>>>> ELSE <<>>)]
Create(a, ok, ev, s, op) == IF ok THEN (IF op.r = 0 /\ op.ev = ev THEN {ev} ELSE {}) ELSE (IF op.r = 11 /\ op.null THEN {s} ELSE {})
(* reading: the last e tag and the last p tag that have a value, the relay beside that e tag, the last k tag that is a kind *)
Named(s, n) == SelectSeq(s.tags, LAMBDA t : Len(t) >= 2 /\ t[1] = n)
IsKind(t) == IsNumeral(t) /\ NumLeq(NumeralVal(t), [neg |-> FALSE, d |-> <<6, 5, 5, 3, 5>>])
SmallVal(t) == FoldLeft(LAMBDA v, x : v * 10 + x, 0, NumeralVal(t).d)
KindIn(s, dflt) == LET ks == SelectSeq(Named(s, K), LAMBDA t : IsKind(t[2])) IN IF ks = <<>> THEN dflt ELSE SmallVal(ks[Len(ks)][2])
LastOf(s, n) == LET x == Named(s, n) IN IF x = <<>> THEN <<>> ELSE x[Len(x)][2]
Relay(s) == LET x == Named(s, E) IN IF x = <<>> \/ Len(x[Len(x)]) < 3 THEN <<>> ELSE x[Len(x)][3]
\* a text as it comes back in a buffer of n bytes; <<>> when no buffer is given
Cut(t, n) == IF n <= 0 THEN <<>> ELSE <<SubSeq(t, 1, IF Len(t) < n THEN Len(t) ELSE n - 1)>>
IsKindOf(s, what) == IF what = "repost" THEN s.kind \in {6, 16} ELSE s.kind = 7
Parse(s, op) ==
    IF ~IsKindOf(s, op.what) THEN op.r = 2
    ELSE IF Named(s, E) = <<>> THEN op.r = 9
    ELSE /\ op.r = 0 /\ op.id = Cut(LastOf(s, E), op.n.id) /\ op.pk = Cut(LastOf(s, PP), op.n.pk)
         /\ op.text = Cut(IF op.what = "repost" THEN Relay(s) ELSE s.content, op.n.text)
         /\ op.k = (IF ~op.wantk THEN <<>> ELSE <<KindIn(s, IF s.kind = 6 THEN 1 ELSE 0)>>)
(* quotes: the content as pieces, each a text or a mention [what, ...] with its uri *)
PieceText(p) == p.t
QTag(p) == CASE p.what = "note" -> <<<<Q, HexOf(p.id), <<>>, <<>>>>>>
             [] p.what = "nevent" -> <<<<Q, HexOf(p.id), Opt(p.relays, <<>>), IF p.author = <<>> THEN <<>> ELSE HexOf(p.author[1])>>>>
             [] p.what = "naddr" -> <<<<Q, NatText(p.k) \o Colon \o HexOf(p.pk) \o Colon \o p.ident, Opt(p.relays, <<>>), <<>>>>>>
             [] OTHER -> <<>>           \* plain text, other entities, damaged ones
Quoted(ps) == FlattenSeq([i \in DOMAIN ps |-> QTag(ps[i])])
Exec(s, op) ==
    CASE op.o = "new" -> {[kind |-> op.kind, content |-> <<>>, tags |-> <<>>]}
      [] op.o = "content" -> {[s EXCEPT !.content = op.t]}
      [] op.o = "tag" -> {[s EXCEPT !.tags = Append(@, op.v)]}
      [] op.o = "repost" -> Create(op, IsId(op.id) /\ IsId(op.pk), RepostOf(op), s, op)
      [] op.o = "reaction" -> Create(op, IsId(op.id) /\ IsId(op.pk), ReactionOf(op), s, op)
      [] op.o = "null" -> IF op.r = 11 /\ op.null THEN {s} ELSE {}
      [] op.o = "parse" -> IF Parse(s, op) THEN {s} ELSE {}
      [] op.o = "like" -> IF IF s.kind = 7 THEN op.r = 0 /\ op.v = (s.content = <<>> \/ s.content = <<43>>) ELSE op.r = 2 THEN {s} ELSE {}
      [] op.o = "dislike" -> IF IF s.kind = 7 THEN op.r = 0 /\ op.v = (s.content = <<45>>) ELSE op.r = 2 THEN {s} ELSE {}
      [] op.o = "quote" -> LET t == [s EXCEPT !.tags = @ \o Quoted(op.ps)] IN
                           IF op.r = 0 /\ FlattenSeq([i \in DOMAIN op.ps |-> PieceText(op.ps[i])]) = s.content /\ op.ev = t THEN {t} ELSE {}
         \* memory ran out during the call: all or nothing
      [] op.o = "oom" -> IF op.r = 0 THEN (IF op.ev = (IF op.a.o = "repost" THEN RepostOf(op.a) ELSE ReactionOf(op.a)) THEN {s} ELSE {}) ELSE IF op.null THEN {s} ELSE {}
      [] op.o = "dump" -> IF op.ev = s THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
