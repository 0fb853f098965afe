------------------------------ MODULE Reports -------------------------------
(* P34.  What the library says about itself and about refusals.  State: the  *)
(* build (NIPs and features configured), and what was said so far: the list  *)
(* of features, the version, the text of each error code.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
\* NIPs that can be left out of a build; the others are part of the core or of the relay protocol and may be reported either way
Optional == {4, 5, 10, 13, 17, 18, 25, 26, 44, 46, 47, 49, 51, 57, 59, 65}
Inherent == {1, 2, 6, 9, 11, 19, 21, 40, 42, 45, 50}
Features == {"relay", "relay-protocol", "hd-keys", "json-enhanced"}
Core == {"std", "events", "keys", "encoding"}
NipNames == {4 :> "nip04", 5 :> "nip05", 10 :> "nip10", 13 :> "nip13", 17 :> "nip17", 18 :> "nip18", 25 :> "nip25", 26 :> "nip26", 44 :> "nip44", 46 :> "nip46", 47 :> "nip47",
             49 :> "nip49", 51 :> "nip51", 57 :> "nip57", 59 :> "nip59", 65 :> "nip65"}
NipName == [n \in Optional |-> (CHOOSE f \in NipNames : n \in DOMAIN f)[n]]
Errors == 1..12             \* nostr_error_t, 0 = success
RelayErrors == 1..19        \* nostr_relay_error_t, 0 = success
Start == [nips |-> {}, feats |-> {}, noscrypt |-> FALSE, list |-> <<>>, version |-> <<>>, err |-> <<>>, rerr |-> <<>>]
Names(s) == Core \cup {NipName[n] : n \in s.nips} \cup s.feats
\* said: pairs <<code, text>>.  A code always has the same text, and an error of its own has a text of its own
Says(said, code, text, own) == /\ text # <<>>
    /\ \A i \in DOMAIN said : LET c == said[i][1]  t == said[i][2] IN IF c = code THEN t = text ELSE (c \in own \/ code \in own) => t # text
Fits(t, n) == Len(t) < n
Invalid == <<105, 110, 118, 97, 108, 105, 100, 58, 32>>                          \* "invalid: "
ForField == <<32, 102, 111, 114, 32, 102, 105, 101, 108, 100, 32, 39>>           \* " for field '"
Reason(m, f) == Invalid \o m \o (IF f = <<>> THEN <<>> ELSE ForField \o f \o <<39>>)
\* written whole, or no length is reported (and what is written is a beginning of it, ended)
Written(t, size, r, out) == IF size = 0 THEN r = 0 ELSE IF Fits(t, size) THEN r = Len(t) /\ out = t ELSE r = 0 /\ Len(out) < size /\ IsPrefix(out, t)
Exec(s, op) ==
    CASE op.o = "built" -> {[s EXCEPT !.nips = ToSet(op.nips), !.feats = ToSet(op.feats), !.noscrypt = op.noscrypt]}
      [] op.o = "nip" -> IF op.n \in Inherent THEN {s} ELSE IF op.r = (IF op.n \in s.nips THEN 1 ELSE 0) THEN {s} ELSE {}
         \* what is said to be supported is there and does its work
      [] op.o = "does" -> IF (op.n \in s.nips) = (op.there /\ op.r # 12) THEN {s} ELSE {}
      [] op.o = "feature" -> IF op.r = (IF op.f \in s.feats THEN 1 ELSE 0) THEN {s} ELSE {}
      [] op.o = "list" -> IF /\ ToSet(op.names) = Names(s) /\ Len(op.names) = Cardinality(Names(s))
                             /\ (s.list = <<>> \/ s.list = op.names) THEN {[s EXCEPT !.list = op.names]} ELSE {}
         \* asked by several threads at once, also for the first time
      [] op.o = "lists" -> LET x == op.said[1] IN IF (\A i \in DOMAIN op.said : op.said[i] = x) /\ ToSet(x) = Names(s) /\ Len(x) = Cardinality(Names(s)) THEN {[s EXCEPT !.list = x]} ELSE {}
      [] op.o = "version" -> IF op.text # <<>> /\ (s.version = <<>> \/ s.version = op.text) THEN {[s EXCEPT !.version = op.text]} ELSE {}
      [] op.o = "backend" -> IF op.text # <<>> /\ op.noscrypt = s.noscrypt THEN {s} ELSE {}
      [] op.o = "error" -> IF Says(s.err, op.code, op.text, 0..12) THEN {[s EXCEPT !.err = IF Len(@) > 60 THEN @ ELSE Append(@, <<op.code, op.text>>)]} ELSE {}
      [] op.o = "relayerror" -> IF Says(s.rerr, op.code, op.text, 0..19) THEN {[s EXCEPT !.rerr = IF Len(@) > 60 THEN @ ELSE Append(@, <<op.code, op.text>>)]} ELSE {}
      [] op.o = "format" -> IF Written(Reason(op.message, op.field), op.size, op.r, op.out) THEN {s} ELSE {}
         \* the verdict on an event or a filter: the code returned is the one in the result, a refusal has a reason and names its part
      [] op.o = "judge" -> IF /\ op.valid = (op.r = 0) /\ (op.r = 0 => op.ok) /\ (op.r # 0 => ~op.ok /\ op.code = op.r /\ op.message # <<>>)
                              /\ (op.part # <<>> => op.field = op.part[1]) THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
