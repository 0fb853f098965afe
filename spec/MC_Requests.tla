---- MODULE MC_Requests ----
(* A client with connections to a wallet, a remote signer, and Mallory, who   *)
(* sends anything under her own key and replays what she sees under it.       *)
EXTENDS Requests, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, wire, paid, told, h
Amounts == {"none", "n:1", "n:9007199254740993"}
M(author, pair, kind, text) == [author |-> author, pair |-> pair, kind |-> kind, text |-> text]
Init == s = Init0 /\ wire = {} /\ paid = {} /\ told = {} /\ h = <<>>
Did(e) == h' = Append(h, e)
F(n, c) == [eq |-> TRUE, name |-> n, client |-> c]
\* connections: to the wallet with the client's secret, and broken ones
Uris == {<<F("relay", ""), F("secret", "C")>>, <<F("secret", "C"), F("relay", ""), F("lud16", ""), F("relay", "")>>, <<F("relay", ""), F("secret", "bad")>>, <<F("relay", ""), F("secret", "C"), F("secret", "D")>>, <<F("secret", "C")>>, <<F("relay", ""), F("secret", "none")>>}
Connect(u) == LET op == [o |-> "connect", scheme |-> TRUE, service |-> "W", point |-> TRUE, fields |-> u, inj |-> 0, left |-> FALSE]
                  r == IF Connects(op) THEN 0 ELSE 11 IN
    \E t \in Exec(s, [r |-> r] @@ op) : s' = t /\ UNCHANGED <<wire, paid, told>> /\ Did([o |-> "connect", fields |-> [i \in 1..Len(u) |-> <<u[i].name, u[i].client>>]])
\* a payment: the parameters are made, the request carries them
Pay(c, amount) == /\ c <= Len(s.conns)
    /\ LET k == s.conns[c]
           p == [o |-> "params", f |-> "pay_invoice", a |-> [invoice |-> "s:lnbc", amount |-> amount], r |-> 0, inj |-> 0, left |-> FALSE, d |-> [body |-> <<<<"invoice", "s:lnbc">>>> \o (IF amount = "none" THEN <<>> ELSE <<<<"amount", amount>>>>), list |-> <<>>]]
           text == "j:" \o amount
           op == [o |-> "request", c |-> c - 1, nip44 |-> TRUE, method |-> "s:pay_invoice", params |-> text, size |-> 300, norand |-> FALSE, inj |-> 0, left |-> FALSE, r |-> IF k.client = "none" THEN 1 ELSE 0,
                  d |-> [kind |-> 23194, key |-> k.client, tags |-> <<<<"p", k.service>>, <<"encryption", "nip44_v2">>>>, at |-> 0, valid |-> TRUE, open |-> TRUE, body |-> <<<<"method", "s:pay_invoice">>, <<"params", text>>>>]] IN
       /\ Exec(s, p) # {} /\ Exec(s, op) # {} /\ UNCHANGED <<s, told>>
       /\ wire' = (IF op.r = 0 THEN wire \cup {M(k.client, {k.client, "W"}, 23194, text)} ELSE wire) /\ paid' = (IF op.r = 0 THEN paid \cup {<<k.client, text>>} ELSE paid)
       /\ Did([o |-> "pay", c |-> c - 1, amount |-> amount])
\* the wallet answers requests, Mallory says what she likes or sends on what others sealed
Say(who, kind, text) == wire' = wire \cup {M(who, {who, "C"}, kind, text)} /\ UNCHANGED <<s, paid, told>> /\ Did([o |-> "say", who |-> who, kind |-> kind])
Replay == \E m \in wire : wire' = wire \cup {[m EXCEPT !.author = "X"]} /\ UNCHANGED <<s, paid, told>> /\ Did([o |-> "replay"])
Hear == \E m \in wire : LET open == m.pair = {m.author, "C"}
            want == [result |-> m.text]
            op == [o |-> "answer", kind |-> m.kind, open |-> open, object |-> TRUE, encryption |-> "none", asked |-> <<"result">>, want |-> want, got |-> want, inj |-> 0, left |-> FALSE, r |-> IF open /\ m.kind = 23195 THEN 0 ELSE 3] IN
    Exec(s, op) # {} /\ told' = (IF op.r = 0 THEN told \cup {<<m.author, m.text>>} ELSE told) /\ UNCHANGED <<s, wire, paid>> /\ Did([o |-> "hear", kind |-> m.kind])
Next == Len(h) < Depth /\ ( (\E u \in Uris : Connect(u)) \/ (\E c \in 1..2, a \in Amounts : Pay(c, a)) \/ (\E w \in {"W", "X"}, k \in {23195, 23197} : Say(w, k, w)) \/ Replay \/ Hear )
\* what is taken for a party's words are its words to this client; only a connection's holder pays, and what is on the wire is what was meant
Authentic == \A t \in told : t[2] = t[1]
Exact == \A m \in wire : m.kind = 23194 /\ m.author # "X" => <<m.author, m.text>> \in paid
Keys == \A i \in 1..Len(s.conns) : s.conns[i].client # "bad" /\ s.conns[i].service = "W"
Emit == (Len(h) = Depth) => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
View == <<s, wire, paid, told, Len(h)>>
====
