----------------------------- MODULE MC_GiftWrap -----------------------------
(* Two correspondents and Mallory, who reads what is addressed to M, makes    *)
(* wraps of any content, and repacks seals that were made for M.             *)
EXTENDS GiftWrap, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, wire, got, sent, h
Who == {"A", "B", "M"}
R(key, text, signed) == [parsed |-> TRUE, kind |-> 14, at |-> 0, tags |-> <<>>, text |-> text, key |-> key, idok |-> TRUE, signed |-> signed]
\* a seal: who signed it, whose it says it is, between whom it is encrypted
Seal(by, key, pair, rumor) == [by |-> by, key |-> key, pair |-> pair, rumor |-> rumor]
W(u, pair, seal) == [u |-> u, pair |-> pair, seal |-> seal]
D(w, b) == [kind |-> 1059, tags |-> <<P(b)>>, age |-> 7, key |-> w.u, valid |-> TRUE, open |-> w.pair = {w.u, b},
            seal |-> [parsed |-> TRUE, kind |-> 13, tags |-> <<>>, age |-> 9, key |-> w.seal.key, valid |-> w.seal.by = w.seal.key, open |-> w.seal.pair = {w.seal.key, b}, rumor |-> w.seal.rumor]]
Init == s = Init0 /\ wire = {} /\ got = {} /\ sent = {} /\ h = <<>>
Text(a, b) == a \o "to" \o b
Send(a, b) == LET w == W("e" \o ToString(Len(h)), {"e" \o ToString(Len(h)), b}, Seal(a, a, {a, b}, R(a, Text(a, b), FALSE)))
                  op == [o |-> "wrap", from |-> a, to |-> b, keys |-> TRUE, size |-> 300, inj |-> 0, norand |-> FALSE, left |-> FALSE, r |-> 0, ev |-> R(a, Text(a, b), FALSE), d |-> D(w, b)] IN
    \E t \in Exec(s, op) : s' = t /\ wire' = wire \cup {w} /\ sent' = sent \cup {<<a, b, Text(a, b)>>} /\ got' = got /\ h' = Append(h, [o |-> "send", a |-> a, b |-> b])
\* Mallory: a rumor in any name, a seal that she signs (or that names another), for anybody
Forge(x, y, b) == LET u == "m" \o ToString(Len(h)) IN wire' = wire \cup {W(u, {u, b}, Seal("M", y, {"M", b}, R(x, "evil", x = "M")))} /\ h' = Append(h, [o |-> "forge", x |-> x, y |-> y, b |-> b]) /\ UNCHANGED <<s, got, sent>>
\* what she was sent, wrapped again for another
Repack(b) == \E w \in wire : w.pair = {w.u, "M"} /\ LET u == "m" \o ToString(Len(h)) IN wire' = wire \cup {W(u, {u, b}, w.seal)} /\ h' = Append(h, [o |-> "repack", b |-> b]) /\ UNCHANGED <<s, got, sent>>
\* an event that its author published, inside a wrap of hers
Forward(b) == LET u == "m" \o ToString(Len(h)) IN wire' = wire \cup {W(u, {u, b}, Seal("M", "M", {"M", b}, R("A", "public", TRUE)))} /\ h' = Append(h, [o |-> "forward", b |-> b]) /\ UNCHANGED <<s, got, sent>>
Open(b, via) == \E w \in wire : LET d == D(w, b)  ok == Opens(via, d)
                    op == [o |-> "open", via |-> via, d |-> d, r |-> IF ok THEN 0 ELSE 2, inj |-> 0, left |-> FALSE, got |-> d.seal.rumor, asked |-> TRUE, author |-> d.seal.key] IN
    \E t \in Exec(s, op) : s' = t /\ got' = (IF ok THEN got \cup {[b |-> b, via |-> via, author |-> d.seal.rumor.key, text |-> d.seal.rumor.text]} ELSE got) /\ h' = Append(h, [o |-> "open", b |-> b, via |-> via]) /\ UNCHANGED <<wire, sent>>
Next == Len(h) < Depth /\ ( (\E a, b \in Who : a # b /\ Send(a, b)) \/ (\E x, y \in Who, b \in {"A", "B"} : Forge(x, y, b)) \/ (\E b \in {"A", "B"} : Repack(b) \/ Forward(b)) \/ (\E b \in {"A", "B"}, via \in {17, 59} : Open(b, via)) )
\* what is taken to be from A or B was sent by them to this reader (or, unwrapped generically, was published by them)
Authentic == \A g \in got : g.author # "M" => <<g.author, g.b, g.text>> \in sent \/ (g.via = 59 /\ g.text = "public")
\* what was sent cannot be refused
Delivered == \A w \in wire : \A b \in Who : w.pair = {w.u, b} /\ w.seal.by = w.seal.key /\ w.seal.pair = {w.seal.by, b} /\ w.seal.rumor.key = w.seal.by => Opens(17, D(w, b)) /\ Opens(59, D(w, b))
OneWrapOneKey == \A v, w \in wire : v.u = w.u => v = w
Emit == (Len(h) = Depth) => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
View == <<s, wire, got, Len(h)>>
=============================================================================
