-------------------------- MODULE MC_Keys --------------------------
EXTENDS Keys, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, h
K(n) == [i \in 1..32 |-> IF i = 32 THEN n ELSE 0]
SKs == {K(0), K(1), K(2), N}
Pk(k) == [i \in 1..32 |-> k[32] + 100]          \* an abstract curve: injective on the valid keys used
Init == s = Init0 /\ h = <<>>
Step(op) == \E t \in Exec(s, op) : s' = t /\ h' = Append(h, op)
I == 1..2
Next == Len(h) < Depth /\ \E i \in I :
   ((\E g \in {"ok", "dead", "bad", "late"} : Step([o |-> "generate", i |-> i, rng |-> g, r |-> IF g \in {"ok", "late"} THEN 0 ELSE 4, sk |-> K(2), pk |-> Pk(K(2)), curve |-> Pk(K(2)), fresh |-> TRUE]))
    \/ (\E k \in SKs : Step([o |-> "fromkey", i |-> i, key |-> k, curve |-> Pk(k), r |-> IF Valid(k) THEN 0 ELSE 1]) \/ Step([o |-> "fromhex", i |-> i, text |-> HexOf(k), curve |-> Pk(k), r |-> IF Valid(k) THEN 0 ELSE 1]))
    \/ Step([o |-> "fromhex", i |-> i, text |-> <<97>>, curve |-> Pk(K(1)), r |-> 1])
    \/ Step([o |-> "destroy", i |-> i, wiped |-> TRUE])
    \/ (\E p \in BOOLEAN, k \in {K(1), Pk(K(1))} : Step([o |-> "overwrite", i |-> i, private |-> p, key |-> k]))
    \/ (\E r \in {0, 1} : Step([o |-> "validate", i |-> i, r |-> r, curve |-> IF s[i].init THEN Pk(s[i].sk) ELSE <<>>])))
\* only valid secret keys are ever in a usable key pair, with their own public key, unless memory was overwritten since
Tampered(i) == \E k \in 1..Len(h) : h[k].o = "overwrite" /\ h[k].i = i
Sound == \A i \in I : s[i].init /\ ~Tampered(i) => Valid(s[i].sk) /\ s[i].pk = Pk(s[i].sk)
Unusable == h # <<>> /\ h[Len(h)].o \in {"generate", "fromkey"} /\ h[Len(h)].r # 0 => ~s[h[Len(h)].i].init
Vouched == h # <<>> /\ h[Len(h)].o = "validate" /\ h[Len(h)].r = 0 => LET x == s[h[Len(h)].i] IN x.init /\ Valid(x.sk) /\ x.pk = Pk(x.sk)
Emit == (Len(h) = Depth) => CSVWrite("%1$s", <<ToJson([k \in 1..Len(h) |-> [x \in (DOMAIN h[k]) \ {"curve", "sk", "pk", "fresh", "wiped"} |-> h[k][x]]])>>, IOEnv.GEN)
View == <<s, Len(h), IF h = <<>> THEN h ELSE h[Len(h)], {i \in I : Tampered(i)}>>
=============================================================================
