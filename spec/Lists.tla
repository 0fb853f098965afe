-------------------------------- MODULE Lists --------------------------------
(* P17.  A user's lists (NIP-51).  State: the list being edited (kind,       *)
(* metadata, items in order) and the event it was last published as: public  *)
(* items in its tags, private ones sealed in its content for the owner.      *)
(* Optional texts are sequences of at most one value.                        *)
EXTENDS Bytes
Opt(x) == IF x = <<>> THEN <<>> ELSE x[1]
Item(t, v, r, p, priv) == [type |-> t, value |-> v, relay |-> r, pet |-> p, private |-> priv]
Param(k) == 30000 <= k /\ k < 40000
None == [kind |-> 0 - 1, d |-> <<>>, title |-> <<>>, description |-> <<>>, image |-> <<>>, items |-> <<>>]
Init0 == [l |-> None, sealed |-> <<>>]
Hex64(v) == Len(v) = 64 /\ AllIn(v, IsHex)
Names == [p |-> <<112>>, e |-> <<101>>, t |-> <<116>>, word |-> <<119, 111, 114, 100>>, relay |-> <<114, 101, 108, 97, 121>>, a |-> <<97>>,
          group |-> <<103, 114, 111, 117, 112>>, emoji |-> <<101, 109, 111, 106, 105>>]
\* what may be added as what
AddOk(op) == CASE op.k \in {"p", "e"} -> Hex64(op.value)
               [] op.k \in {"group", "emoji"} -> op.value # <<>> /\ op.relay # <<>> /\ op.relay # <<<<>>>>
               [] OTHER -> op.value # <<>>
MaxItems == 4096
ItemTag(i) == <<i.type, i.value>> \o (IF i.relay = <<>> /\ i.pet = <<>> THEN <<>> ELSE <<Opt(i.relay)>>) \o i.pet
Public(items) == SelectSeq(items, LAMBDA i : ~i.private)
Private(items) == SelectSeq(items, LAMBDA i : i.private)
D == <<100>>
Title == <<116, 105, 116, 108, 101>>
Description == <<100, 101, 115, 99, 114, 105, 112, 116, 105, 111, 110>>
Image == <<105, 109, 97, 103, 101>>
Meta(n, x) == IF x = <<>> THEN <<>> ELSE <<<<n, x[1]>>>>
Tags(l) == LET it == Public(l.items) IN
           (IF Param(l.kind) THEN <<<<D, Opt(l.d)>>>> \o Meta(Title, l.title) \o Meta(Description, l.description) \o Meta(Image, l.image) ELSE <<>>)
           \o [i \in 1..Len(it) |-> ItemTag(it[i])]
\* reading back: the last of each metadata tag counts; every other tag is an item
LastOf(tags, n) == LET m == SelectSeq(tags, LAMBDA t : Len(t) >= 2 /\ t[1] = n) IN IF m = <<>> THEN <<>> ELSE <<m[Len(m)][2]>>
ReadItem(t) == Item(t[1], t[2], IF Len(t) >= 3 THEN <<t[3]>> ELSE <<>>, IF Len(t) >= 4 THEN <<t[4]>> ELSE <<>>, FALSE)
ReadItems(tags) == LET m == SelectSeq(tags, LAMBDA t : Len(t) >= 2 /\ t[1] \notin {D, Title, Description, Image}) IN [i \in 1..Len(m) |-> ReadItem(m[i])]
\* an empty optional text of a sealed item reads back as absent
Norm(x) == IF x = <<<<>>>> THEN <<>> ELSE x
Unsealed(items) == [i \in 1..Len(items) |-> [items[i] EXCEPT !.relay = Norm(@), !.pet = Norm(@)]]
\* what another client may have sealed: rows of texts; a row names an item by its type and value
SealedRows(rows) == LET m == SelectSeq(rows, LAMBDA t : Len(t) >= 2 /\ t[1] # <<>> /\ t[2] # <<>>) IN [i \in 1..Len(m) |-> [ReadItem(m[i]) EXCEPT !.private = TRUE]]
FromEvent(kind, tags, sealed) == [kind |-> kind, d |-> LastOf(tags, D), title |-> LastOf(tags, Title), description |-> LastOf(tags, Description), image |-> LastOf(tags, Image),
                                  items |-> ReadItems(tags) \o Unsealed(sealed)]
Exec(s, op) ==
    CASE op.o = "create" -> IF op.r = 0 THEN {[s EXCEPT !.l = [None EXCEPT !.kind = op.kind]]} ELSE {}
      [] op.o = "add" -> LET it == Item(Names[op.k], op.value, op.relay, op.pet, op.private) IN
            IF op.r = 0 THEN (IF AddOk(op) /\ Len(s.l.items) < MaxItems THEN {[s EXCEPT !.l.items = Append(@, it)]} ELSE {})
            ELSE IF ~AddOk(op) \/ Len(s.l.items) >= MaxItems \/ op.oom THEN {s} ELSE {}
      [] op.o = "remove" -> IF op.i <= Len(s.l.items) THEN (IF op.r = 0 THEN {[s EXCEPT !.l.items = SubSeq(@, 1, op.i - 1) \o SubSeq(@, op.i + 1, Len(@))]} ELSE {}) ELSE (IF op.r # 0 THEN {s} ELSE {})
      [] op.o = "set" -> IF op.r = 0 THEN {[s EXCEPT !.l = [@ EXCEPT !.d = IF op.f = "d" THEN op.v ELSE @, !.title = IF op.f = "title" THEN op.v ELSE @,
                                                  !.description = IF op.f = "description" THEN op.v ELSE @, !.image = IF op.f = "image" THEN op.v ELSE @]]} ELSE IF op.oom THEN {s} ELSE {}
      [] op.o = "list" -> IF op.n = Len(s.l.items) /\ op.l = s.l /\ op.beyond THEN {s} ELSE {}
         \* publishing: private items need the owner's key and a build that can seal them; they appear nowhere in the clear
      [] op.o = "to" -> LET priv == Private(s.l.items) IN
            IF op.r = 0 THEN (IF /\ (priv # <<>> => op.key /\ op.canseal) /\ op.kind = s.l.kind /\ op.atok /\ op.tags = Tags(s.l) /\ op.clear = (priv = <<>>)
                                 /\ op.sealed = [i \in 1..Len(priv) |-> ItemTag(priv[i])]
                              THEN {[s EXCEPT !.sealed = priv]} ELSE {})
            ELSE IF (priv # <<>> /\ (~op.key \/ ~op.canseal \/ op.toobig)) \/ op.oom THEN {s} ELSE {}
         \* reading an event: own = the event last published, else one holding the
         \* rows given; without the key only the public part is seen
      [] op.o = "from" -> LET x == IF ~op.key THEN <<>> ELSE IF op.own THEN s.sealed ELSE SealedRows(op.rows) IN
            IF op.r = 0 THEN (IF op.alien THEN {} ELSE {[s EXCEPT !.l = FromEvent(op.kind, op.tags, x)]})
            ELSE IF op.alien \/ op.oom \/ Len(ReadItems(op.tags)) + Len(x) > MaxItems THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
