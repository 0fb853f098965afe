-------------------------- MODULE MC_Nip05 --------------------------
(* A domain changes what it serves while a client verifies identifiers.      *)
EXTENDS Nip05, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, h, last
K(c) == [i \in 1..64 |-> c]
Ka == K(97) KA == K(65) Kb == K(98) Kx == K(120)
Bob == <<98, 111, 98>>
Ann == <<97, 110, 110>>
UpBob == <<66, 111, 98>>
N(k, v) == [k |-> k, str |-> TRUE, v |-> v]
NamesSets == {<<>>, <<N(Bob, Ka)>>, <<N(Bob, KA)>>, <<N(Ann, Kb), N(Bob, Ka)>>, <<N(UpBob, Kb)>>, <<N(Bob, Kx)>>, <<N(Bob, <<97>>)>>, <<[k |-> Bob, str |-> FALSE, v |-> <<>>]>>, <<N(Ka, Kb), N(Bob, Ka)>>}
Rl(k, us) == [k |-> k, urls |-> us, esc |-> [i \in 1..Len(us) |-> FALSE]]
RelaySets == {<<>>, <<Rl(Ka, <<Wss \o <<97>>>>)>>, <<Rl(Kb, <<Wss \o <<98>>>>), Rl(Ka, <<<<120>>, Ws \o <<91, 93>>, Wss>>)>>}
O(e) == <<[obj |-> TRUE, e |-> e]>>
Docs == {[ok |-> TRUE, names |-> O(n), relays |-> O(r)] : n \in NamesSets, r \in RelaySets} \cup {[ok |-> TRUE, names |-> <<>>, relays |-> <<>>], [ok |-> TRUE, names |-> <<[obj |-> FALSE, e |-> <<>>]>>, relays |-> <<>>]}
Init == s = NoDoc /\ h = <<>> /\ last = "none"
Op(o) == /\ \E t \in Exec(s, o) : s' = t
         /\ h' = Append(h, o)
Ids == {Bob \o <<64, 97, 46, 99>>, UpBob \o <<64, 65, 46, 99>>, Ann \o <<64, 97, 46, 99>>, Bob \o <<64, 97>>, <<64, 97, 46, 99>>}
Next == Len(h) < Depth /\
  ((\E d \in Docs : Op([o |-> "serve", doc |-> d]) /\ last' = "none")
   \/ (s.ok /\ \E id \in Ids, e \in {Ka, KA, Kb, <<97>>}, rel \in {<<>>, <<Wss \o <<97>>>>, <<Ws \o <<91, 93>>, Wss>>}, r \in {0, 1} :
        Op([o |-> "verify", id |-> id, expected |-> e, want |-> TRUE, http |-> 0, nothing |-> FALSE, asked |-> IF IdOk(id) THEN <<UrlOf(Lower(NamePart(id)), Lower(DomainPart(id)))>> ELSE <<>>,
            r |-> r, relays |-> rel, oom |-> FALSE]) /\ last' = IF r = 0 THEN "verified" ELSE "refused"))
LastOp == h[Len(h)]
\* an identifier is only ever verified for a key the document gives to exactly that name
Sound == last = "verified" => LET op == LastOp IN \E x \in KeysOf(s, Lower(NamePart(op.id))) : Lower(x.v) = Lower(op.expected)
\* and a valid claim is never refused
Complete == last = "refused" => LET op == LastOp IN ~(IdOk(op.id) /\ Len(op.expected) = 64 /\ KeysOf(s, Lower(NamePart(op.id))) # {} /\ \A x \in KeysOf(s, Lower(NamePart(op.id))) : Good(x) /\ Lower(x.v) = Lower(op.expected))
RelaysValid == last = "verified" => \A i \in 1..Len(LastOp.relays) : RelayUrlOk(LastOp.relays[i])
Emit == (Len(h) = Depth) => CSVWrite("%1$s", <<ToJson([i \in 1..Len(h) |-> IF h[i].o = "serve" THEN h[i] ELSE [o |-> "verify", id |-> h[i].id, expected |-> h[i].expected]])>>, IOEnv.GEN)
View == <<s, last, Len(h), IF h = <<>> THEN h ELSE LastOp>>
=============================================================================
