------------------------------ MODULE MC_Vault ------------------------------
(* A symbolic cipher: the mac states everything it protects. *)
EXTENDS Vault, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, h
Fill(n, k) == [i \in 1..n |-> k]
Mac(pw, f) == <<pw[1], f.logn, f.salt[1], f.nonce[1], f.sec, f.ct[1]>> \o Fill(10, 0)
F(pw, logn, n, sec, key) == LET f == [ver |-> 2, logn |-> logn, salt |-> Fill(16, n), nonce |-> Fill(24, 100 + n), sec |-> sec, ct |-> Fill(32, key), mac |-> <<>>] IN [f EXCEPT !.mac = Mac(pw, f)]
BytesOf(f) == <<f.ver, f.logn>> \o f.salt \o f.nonce \o <<f.sec>> \o f.ct \o f.mac
Open(pw, f) == IF f.mac = Mac(pw, f) THEN <<f.ct>> ELSE <<>>
Pws == {<<1>>, <<2>>}
Do(op) == \E t \in Exec(s, op) : s' = t /\ h' = Append(h, op)
\* an adversary alters one field of a sealed text, keeping the checksum in order
Alter(f) == {f, [f EXCEPT !.ver = 1], [f EXCEPT !.logn = 23], [f EXCEPT !.logn = 17], [f EXCEPT !.salt[1] = 9], [f EXCEPT !.nonce[1] = 9], [f EXCEPT !.sec = 1], [f EXCEPT !.sec = 3], [f EXCEPT !.ct[1] = 7], [f EXCEPT !.mac[1] = 3]}
Init == s = Empty /\ h = <<>>
Next == Len(h) < Depth /\
    \/ \E pw \in Pws, key \in {5, 6} : LET f == F(pw, 16, Len(h) + 1, 2, key) IN
         Do([o |-> "seal", key |-> f.ct, pw |-> pw, logn |-> 16, size |-> 163, rng |-> "ok", oom |-> FALSE, r |-> 0, t |-> Encode(Prefix, BytesOf(f)), f |-> f, open |-> Open(pw, f)])
    \/ \E x \in s.sealed : \E f \in Parsed(x.t) : \E g \in Alter(f) : \E pw \in Pws, r \in {0, 1} :
         Do([o |-> "unseal", t |-> Encode(Prefix, BytesOf(g)), pw |-> pw, r |-> r, key |-> g.ct, kept |-> TRUE, oom |-> FALSE, f |-> g, open |-> IF InOrder(g) THEN Open(pw, g) ELSE <<>>])
Uniq == Unique(s)
\* a text opens only to the key sealed in it, under its own password
Sound == \A i \in 1..Len(h) : h[i].o = "unseal" /\ h[i].r = 0 => [t |-> h[i].t, key |-> h[i].key, pw |-> h[i].pw] \in s.sealed
Complete == \A i \in 1..Len(h) : h[i].o = "unseal" /\ h[i].r # 0 => [t |-> h[i].t, key |-> h[i].key, pw |-> h[i].pw] \notin s.sealed
View == <<s, Len(h), IF h # <<>> THEN h[Len(h)] ELSE h>>
=============================================================================
