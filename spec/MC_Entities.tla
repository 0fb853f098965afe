---------------------------- MODULE MC_Entities ----------------------------
EXTENDS Entities, Json, IOUtils, CSV
CONSTANTS Depth, Mode
VARIABLES s, x, n
vars == <<s, x, n>>
H == <<97, 98>>
Key(i) == [j \in 1..32 |-> (i * 37 + j * 11) % 256]
R(k) == Wss \o <<96 + k>>
Bad1 == <<104, 116, 116, 112, 58, 47, 47, 120>>
\* ---- mode "damage": one payload, then substitutions; a text with 1..2 substituted characters never verifies
Payloads == {<<0>>, <<255>>}
\* ---- mode "write": values and their texts
Rels == {<<>>, <<R(2), R(1)>>, <<R(1), Bad1>>}
Vs(h) == {[special |-> sp, relays |-> IF h \in Bare \cup {Nrelay} THEN <<>> ELSE r, author |-> a, kind |-> k] :
             sp \in (IF h = Naddr THEN {<<>>, <<100>>} ELSE IF h = Nrelay THEN {R(1)} ELSE IF h \in Bare THEN {Key(1), Key(2)} ELSE {Key(1)}),
             r \in (IF h \in Bare \cup {Nrelay} THEN {<<>>} ELSE Rels),
             a \in (IF h = Nevent THEN {<<>>, <<Key(3)>>} ELSE IF h = Naddr THEN {<<Key(3)>>} ELSE {<<>>}),
             k \in (IF h = Nevent THEN {<<>>, <<<<0,0,117,48>>>>} ELSE IF h = Naddr THEN {<<<<0,0,0,1>>>>} ELSE {<<>>})}
T(t, v) == <<t, Len(v)>> \o v
Build(h, v) == IF h \in Bare THEN v.special ELSE T(0, v.special) \o FlattenSeq([i \in 1..Len(v.relays) |-> T(1, v.relays[i])]) \o (IF v.author = <<>> THEN <<>> ELSE T(2, v.author[1])) \o (IF v.kind = <<>> THEN <<>> ELSE T(3, v.kind[1]))
Do(op) == \E t \in Exec(s, op) : s' = t
\* ---- mode "gen": lists of parts
Menu == <<T(0, Key(1)), T(0, SubSeq(Key(1), 1, 31)), T(0, <<>>), T(0, <<97, 98, 99>>), T(0, <<97, 0, 99>>), T(1, R(1)), T(1, R(2)), T(1, Bad1), T(1, Ws), T(1, Wss), T(2, Key(3)), T(2, Tail(Key(3))), T(2, Key(4)), T(3, <<0, 0, 0, 1>>), T(3, <<1, 2, 3, 4>>), T(3, <<0, 1>>), T(7, <<1, 2>>), <<0, 200, 1>>, <<1>>, <<2, 32, 5>>>>
Init == s = {} /\ n = 0 /\ x \in CASE Mode = "damage" -> {Encode(H, p) : p \in Payloads}
                                   [] Mode = "write" -> {<<>>}
                                   [] OTHER -> {[h |-> h, l |-> <<>>] : h \in {Nprofile, Nevent, Naddr, Nrelay}}
Next == n < Depth /\ n' = n + 1 /\
    CASE Mode = "damage" -> s' = s /\ \E i \in 3..Len(x), c \in CharSet \cup {One, 98} : c # x[i] /\ (n = 0 \/ i > 5) /\ x' = [x EXCEPT ![i] = c]
      [] Mode = "write" -> x' = x /\ \E h \in Kinds : \E v \in Vs(h) : Do([o |-> "write", h |-> h, v |-> v, size |-> 1000, r |-> 0, oom |-> FALSE, t |-> Encode(h, Build(h, v))])
      [] OTHER -> s' = s /\ \E i \in 1..Len(Menu) : x' = [x EXCEPT !.l = Append(@, i)]
Stable == Mode = "write" => (Faithful(s) /\ Distinct(s))
Detected == (Mode = "damage" /\ n > 0) => (~Decode(x).ok \/ x \in {Encode(H, p) : p \in Payloads})
Grouping == Mode = "damage" /\ n = 0 => \E p \in Payloads : Decode(x) = [ok |-> TRUE, h |-> H, bs |-> p]
Emit == (Mode = "gen" /\ n > 0) => CSVWrite("%1$s", <<ToJson([h |-> x.h, t |-> Encode(x.h, FlattenSeq([i \in 1..Len(x.l) |-> Menu[x.l[i]]]))])>>, IOEnv.GEN)
=============================================================================
