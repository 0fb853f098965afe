-------------------------- MODULE MC_Ecdh --------------------------
(* An abstract Diffie-Hellman group: exponents modulo 5, x coordinate ignores the sign. *)
EXTENDS Ecdh, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, h
X(e) == LET m == e % 11 IN IF m <= 5 THEN m ELSE 11 - m
Pub(k) == <<X(k)>>
Sec(a, b) == [i \in 1..32 |-> X(a * b)]
Init == s = {} /\ h = <<>>
Next == Len(h) < Depth /\ \E a, b \in 0..4, claim \in {0, 1} :
    LET op == [o |-> "ecdh", a |-> a, b |-> b, mine |-> Pub(a), theirs |-> Pub(b), valid |-> a # 0 /\ b # 0, r |-> IF a # 0 /\ b # 0 THEN claim ELSE 1, z |-> Sec(a, X(b)), ref |-> Sec(a, X(b))]
    IN \E t \in Exec(s, op) : s' = t /\ h' = Append(h, op)
Agreement == Agree(s)
Distinct == \A x, y \in s : x.z = y.z => x.p = y.p \/ X(0) = 0
Emit == (Len(h) = Depth) => CSVWrite("%1$s", <<ToJson([i \in 1..Len(h) |-> [a |-> h[i].a, b |-> h[i].b]])>>, IOEnv.GEN)
View == <<s, Len(h)>>
=============================================================================
