------------------------------ MODULE Requests ------------------------------
(* P32.  Remote signing (NIP-46) and wallet connect (NIP-47) messages.       *)
(*                                                                           *)
(* A JSON object is its sequence of <<name, value>> pairs, a value a text    *)
(* that tells its type ("s:..." a string, "n:..." a whole number, ...).      *)
(* An event is what NIP-44 and the signature check find in it:               *)
(*   d = [kind, key, tags, at, valid, open, body]                            *)
(*                                                                           *)
(* State   conns  the connections opened: whose key signs and which service  *)
(*                they are for (client "none": the secret is not a key)      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Init0 == [conns |-> <<>>]
Largest == 65535                              \* what NIP-44 can carry
Rng(q) == {q[i] : i \in 1..Len(q)}
Same(body, want) == Rng(body) = want /\ Len(body) = Cardinality(want)
Refused(s, op, may) == IF (may \/ op.inj > 0) /\ ~op.left THEN {s} ELSE {}
\* the fields of a connection are name=value between &; a secret is 64 hexadecimal digits
Fields(op, n) == SelectSeq(op.fields, LAMBDA f : f.eq /\ f.name = n)
Connects(op) == op.scheme /\ op.service # "bad" /\ Len(Fields(op, "relay")) > 0 /\ Len(Fields(op, "secret")) > 0
                /\ \A f \in Rng(Fields(op, "secret")) : f.client # "bad"
Conn(op) == LET q == Fields(op, "secret") IN [client |-> q[Len(q)].client, service |-> op.service, point |-> op.point]
Opt(have, name, val) == IF have = "none" THEN {} ELSE {<<name, val>>}
\* the parameters of the wallet's methods
Wanted(op) == LET a == op.a IN
    CASE op.f = "pay_invoice"  -> {<<"invoice", a.invoice>>} \cup Opt(a.amount, "amount", a.amount)
      [] op.f = "get_balance"  -> {}
      [] op.f = "get_info"     -> {}
      [] op.f = "make_invoice" -> {<<"amount", a.amount>>} \cup Opt(a.description, "description", a.description) \cup Opt(a.hash, "description_hash", a.hash) \cup Opt(a.expiry, "expiry", a.expiry)
      [] op.f = "list"         -> Opt(a.from, "from", a.from) \cup Opt(a.until, "until", a.until) \cup Opt(a.limit, "limit", a.limit) \cup Opt(a.offset, "offset", a.offset) \cup Opt(a.unpaid, "unpaid", a.unpaid) \cup Opt(a.type, "type", a.type)
      [] op.f = "lookup"       -> Opt(a.hash, "payment_hash", a.hash) \cup Opt(a.invoice, "invoice", a.invoice)
      [] op.f = "keysend"      -> {<<"amount", a.amount>>, <<"pubkey", a.pubkey>>} \cup Opt(a.preimage, "preimage", a.preimage) \cup (IF Len(a.tlv) = 0 THEN {} ELSE {<<"tlv_records", "list">>})
      [] op.f = "multi"        -> {<<"invoices", "list">>}
Zero(v) == v = "n:0"
Lawful(op) == LET a == op.a IN
    CASE op.f = "make_invoice" -> ~Zero(a.amount)
      [] op.f = "lookup"  -> a.hash # "none" \/ a.invoice # "none"
      [] op.f = "keysend" -> ~Zero(a.amount) /\ ~a.odd /\ \A t \in Rng(a.tlv) : t.type # "bad" /\ t.value # "none"
      [] op.f = "multi"   -> Len(a.all) > 0 /\ \A v \in Rng(a.all) : v.invoice # "none"
      [] OTHER -> TRUE
\* the entries of the lists among them
Entries(op) == LET a == op.a IN
    CASE op.f = "keysend" -> [i \in 1..Len(a.tlv) |-> {<<"type", a.tlv[i].type>>, <<"value", a.tlv[i].value>>}]
      [] op.f = "multi" -> [i \in 1..Len(a.all) |-> {<<"invoice", a.all[i].invoice>>} \cup Opt(a.all[i].id, "id", a.all[i].id) \cup (IF Zero(a.all[i].amount) THEN {} ELSE Opt(a.all[i].amount, "amount", a.all[i].amount))]
      [] OTHER -> <<>>
Answer(want, got) == \A n \in DOMAIN want : got[n] = want[n]
Asked(op, n) == n \in Rng(op.asked)
\* what is asked for is what is there, the rest stays as it was
Given(op) == \A n \in DOMAIN op.got : op.got[n] = IF Asked(op, n) THEN op.want[n] ELSE "kept"
Exec(s, op) ==
    CASE op.o = "connect" ->
           IF op.r # 0 THEN Refused(s, op, ~Connects(op))
           ELSE IF Connects(op) THEN {[s EXCEPT !.conns = Append(@, Conn(op))]} ELSE {}
         \* a request of the wallet: signed by the connection's key, for the service's eyes, saying just this
      [] op.o = "request" ->
           LET c == s.conns[op.c + 1]  must == ~op.nip44 \/ c.client = "none" \/ ~c.point \/ op.params = "bad" \/ op.size > Largest \/ op.norand IN
           IF op.r # 0 THEN Refused(s, op, must)
           ELSE IF /\ ~must /\ op.d.kind = 23194 /\ op.d.key = c.client /\ op.d.tags = <<<<"p", c.service>>, <<"encryption", "nip44_v2">>>> /\ op.d.at = 0 /\ op.d.valid /\ op.d.open
                   /\ Same(op.d.body, {<<"method", op.method>>, <<"params", op.params>>}) THEN {s} ELSE {}
         \* a signer's answer: the error if there is one, else the result, as strings
      [] op.o = "reply" ->
           LET must == ~op.keys \/ op.size > Largest \/ op.norand IN
           IF op.r # 0 THEN Refused(s, op, must)
           ELSE IF /\ ~must /\ op.d.kind = 24133 /\ op.d.key = op.from /\ op.d.tags = <<<<"p", op.to>>>> /\ op.d.at = 0 /\ op.d.valid /\ op.d.open
                   /\ Same(op.d.body, {<<"id", op.id>>} \cup (IF op.error # "none" THEN {<<"error", op.error>>} ELSE Opt(op.result, "result", op.result))) THEN {s} ELSE {}
         \* a request to the signer
      [] op.o = "asked" ->
           LET fine == op.kind = 24133 /\ op.open /\ op.object /\ op.idlen <= 64 /\ op.methodlen <= 31 IN
           IF op.r # 0 THEN Refused(s, op, ~fine)
           ELSE IF fine /\ op.got = [id |-> op.id, method |-> op.method, params |-> op.params, sender |-> op.sender] /\ op.size = op.paramsize THEN {s} ELSE {}
         \* the wallet's answers and notifications
      [] op.o = "answer" ->
           LET fine == op.kind = 23195 /\ op.open /\ op.object /\ op.encryption \in {"none", "nip44"} IN
           IF op.r # 0 THEN Refused(s, op, ~fine) ELSE IF fine /\ Given(op) THEN {s} ELSE {}
      [] op.o = "notice" ->
           LET fine == op.kind = 23197 /\ op.open /\ op.object IN
           IF op.r # 0 THEN Refused(s, op, ~fine) ELSE IF fine /\ Given(op) THEN {s} ELSE {}
         \* what a wallet can do
      [] op.o = "info" ->
           IF op.r # 0 THEN Refused(s, op, op.kind # 13194)
           ELSE IF op.kind = 13194 /\ Given(op) THEN {s} ELSE {}
      [] op.o = "params" ->
           IF op.r # 0 THEN Refused(s, op, ~Lawful(op))
           ELSE IF Lawful(op) /\ Same(op.d.body, Wanted(op)) /\ Len(op.d.list) = Len(Entries(op)) /\ \A i \in 1..Len(op.d.list) : Same(op.d.list[i], Entries(op)[i]) THEN {s} ELSE {}
         \* results: of a balance there must be one, the other texts and numbers are there or not
      [] op.o = "result" ->
           LET fine == op.json /\ (op.f = "balance" => op.want.balance # "none") IN
           IF op.r # 0 THEN Refused(s, op, ~fine) ELSE IF fine /\ Given(op) THEN {s} ELSE {}
      [] op.o = "null" -> IF op.r # 0 THEN {s} ELSE {}
      [] op.o = "restart" -> {s}
         \* every block was given back
      [] op.o = "end" -> IF op.live = 0 THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
