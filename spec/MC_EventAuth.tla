--------------------------- MODULE MC_EventAuth ---------------------------
(* Exhaustive small-scope check of EventAuth: an adversary who may edit any *)
(* field, flip bits, recompute ids and move ids/signatures between events   *)
(* never obtains an accepted event that a key holder did not sign.          *)
EXTENDS EventAuth, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, signed, n, h
vars == <<s, signed, n, h>>
Keys == {"k1", "k2"}
Ev == {"a", "b"}
Ops ==
    [o: {"set"}, e: Ev, f: {"content"}, v: {"x", "y"}]
    \cup [o: {"addtag"}, e: {"a"}, v: {<<"t", "x">>}, r: {0}]
    \cup [o: {"flip"}, e: {"a"}, f: {"id", "sig", "pk"}, bit: {0}]
    \cup [o: {"setpk"}, e: {"a"}, k: Keys]
    \cup [o: {"copy"}, e: {"a"}, from: {"b"}, f: {"id", "sig", "pk", "content"}]
    \cup [o: {"computeid"}, e: Ev, r: {0}]
    \cup [o: {"sign"}, e: Ev, k: Keys, r: {0}]
    \cup [o: {"json"}, e: {"a"}, d: {"b"}, r: {0}]
    \cup [o: {"verify"}, e: Ev, r: BOOLEAN]
Init == s = [e \in Ev |-> Fresh("0")] /\ signed = {} /\ n = 0 /\ h = <<>>
Flippable(op) == op.o = "flip" => s[op.e][op.f].t # "none"
Next == n < Depth /\ \E op \in Ops :
          /\ Flippable(op)
          /\ \E t \in Exec(s, op) :
              /\ s' = t
              /\ signed' = IF op.o = "sign" THEN signed \cup {<<op.k, Fields(t[op.e])>>} ELSE signed
              /\ n' = n + 1
              /\ h' = h
\* the property: only what a key holder signed is accepted, under its own key
OnlySigned == \A e \in Ev : Authentic(s[e]) => <<s[e].pk.k, Fields(s[e])>> \in signed
\* and everything freshly signed is accepted
SignedAccepted == [][\A e \in Ev, k \in Keys : (s'[e] = Signed(s[e], k)) => Authentic(s'[e])]_vars
View == <<s, signed, n>>
----------------------------------------------------------------------------
\* behaviour generation: random walks, emitted with their operations
GNext == n < Depth /\ \E op \in Ops :
          /\ Flippable(op) /\ \E t \in Exec(s, op) :
              s' = t /\ signed' = signed /\ n' = n + 1 /\ h' = Append(h, op)
Emit == n = Depth => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
=============================================================================
