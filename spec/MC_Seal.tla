------------------------------ MODULE MC_Seal ------------------------------
(* The protocol of NIP-44 over an abstract cipher: a text on the wire is a     *)
(* record that names the pair whose secret authenticates it; "M" is everybody  *)
(* else, who alters what passes and seals messages of their own.               *)
EXTENDS Seal, Json, IOUtils, CSV
CONSTANTS Depth, Lens
VARIABLES s, wire, got, h
Keys == {"A", "B", "M"}
W(p, u, n, ph) == [p |-> p, n |-> n, h |-> ph, ver |-> 2, hdr |-> n, pad |-> 2 + Padded(n), nonce |-> u, mac |-> TRUE]
D(w, p) == LET m == w.mac /\ w.p = p IN
           [form |-> "b64", strict |-> TRUE, ver |-> w.ver, size |-> 65 + w.pad, nonce |-> w.nonce, mac |-> m, hdr |-> IF m THEN w.hdr ELSE -1, pad |-> IF m THEN w.pad ELSE 0, h |-> IF m THEN w.h ELSE "", tail |-> TRUE]
Changes(w) == {[w EXCEPT !.mac = FALSE], [w EXCEPT !.ver = 1], [w EXCEPT !.mac = FALSE, !.hdr = @ + 1], [w EXCEPT !.mac = FALSE, !.pad = @ + 32]}
Name(n) == "p" \o ToString(n)
Init == s = Init0 /\ wire = {} /\ got = {} /\ h = <<>>
Seal(a, b, n, u) ==
    LET w == W({a, b}, u, n, Name(n))
        op == [o |-> "seal44", mine |-> a, theirs |-> b, keys |-> TRUE, n |-> n, h |-> Name(n), inj |-> 0, norand |-> FALSE, r |-> IF Fits(s, n) THEN 0 ELSE 4, d |-> D(w, {a, b})] IN
    /\ \E t \in Exec(s, op) : s' = t /\ wire' = (IF op.r = 0 THEN wire \cup {w} ELSE wire)
    /\ h' = Append(h, [o |-> "seal", a |-> a, b |-> b, n |-> n]) /\ got' = got
Own(b) == wire' = wire \cup {W({"M", b}, "m", 33, "evil")} /\ UNCHANGED <<s, got>> /\ h' = Append(h, [o |-> "own", b |-> b])
Alter == \E w \in wire : \E x \in Changes(w) : wire' = wire \cup {x} /\ UNCHANGED <<s, got>> /\ h' = Append(h, [o |-> "alter"])
Open(b, a) == \E w \in wire : \E r \in {0, 3} :
    LET op == [o |-> "open44", mine |-> b, theirs |-> a, keys |-> TRUE, inj |-> 0, left |-> FALSE, d |-> D(w, {a, b}), r |-> IF r # 0 /\ w.ver # 2 THEN 12 ELSE r, h |-> w.h, n |-> w.hdr] IN
    /\ \E t \in Exec(s, op) : s' = t /\ got' = (IF op.r = 0 THEN got \cup {[p |-> {a, b}, h |-> w.h]} ELSE got)
    /\ wire' = wire /\ h' = Append(h, [o |-> "open", a |-> a, b |-> b])
Limits(m) == LET op == [o |-> "limits", min |-> 1, max |-> m, r |-> 0] IN \E t \in Exec(s, op) : s' = t /\ UNCHANGED <<wire, got>> /\ h' = Append(h, [o |-> "limits", n |-> m])
Next == Len(h) < Depth /\
    ( (\E a, b \in {"A", "B"}, n \in Lens, u \in {"u", "v"} : a # b /\ Seal(a, b, n, u)) \/ (\E b \in {"A", "B"} : Own(b)) \/ Alter
      \/ (\E a, b \in Keys : a # b /\ Open(b, a)) \/ (\E m \in {32, 65535} : Limits(m)) )
\* only what one of the pair sealed comes out, and what was sealed and fits the limits cannot be refused
Genuine == \A g \in got : g \in s.sealed \/ ("M" \in g.p /\ g.h = "evil")
Delivered == \A w \in wire : w.mac /\ w.ver = 2 /\ w.n <= s.max => \A e \in {3, 11} :
    Exec(s, [o |-> "open44", mine |-> "A", theirs |-> "B", keys |-> TRUE, inj |-> 0, left |-> FALSE, d |-> D(w, w.p), r |-> e, h |-> "", n |-> 0]) = {}
FreshNonce == \A w, x \in wire : w.nonce = x.nonce /\ w.mac /\ x.mac /\ w.ver = 2 /\ x.ver = 2 /\ w.p = x.p /\ "M" \notin w.p => w = x
ASSUME \A n \in 1..3000 : Padded(n) >= n /\ Padded(n) >= 32 /\ Padded(n) <= Padded(n + 1) /\ (n > 32 => 8 * (Padded(n) - n) < 4 * n \/ Padded(n) - n < 32)
ASSUME Padded(65535) = 65536 /\ Padded(33) = 64 /\ Padded(257) = 320 /\ Padded(383) = 384 /\ Padded(512) = 512 /\ Padded(515) = 640
Emit == (Len(h) = Depth) => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
View == <<s, wire, got, Len(h)>>
=============================================================================
