------------------------------ MODULE RelayInfo -----------------------------
(* P30.  A relay's NIP-11 information document.  State: the information      *)
(* structure.  Numbers are decimal texts, optional things sequences of at    *)
(* most one, texts are byte sequences or strings (never looked into).        *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
Texts == {"name", "description", "banner", "icon", "pubkey", "self", "contact", "software", "version", "privacy_policy", "terms_of_service", "posting_policy", "payments_url"}
Limits == {"max_message_length", "max_subscriptions", "max_filters", "max_limit", "max_subid_length", "max_event_tags", "max_content_length", "min_pow_difficulty",
           "created_at_lower_limit", "created_at_upper_limit", "default_limit"}
Flags == {"auth_required", "payment_required", "restricted_writes"}
Lists == {"relay_countries", "language_tags", "tags"}
DefaultLimits == [k \in Limits |-> CASE k = "max_message_length" -> "131072" [] k = "max_subscriptions" -> "20" [] k = "max_filters" -> "10" [] k = "max_limit" -> "5000"
                    [] k = "max_subid_length" -> "64" [] k = "max_event_tags" -> "2000" [] k = "max_content_length" -> "65536" [] k = "default_limit" -> "500" [] OTHER -> "0"]
Zero == [text |-> [k \in Texts |-> <<>>], nips |-> <<>>, lim |-> [k \in Limits |-> "0"], flag |-> [k \in Flags |-> FALSE], ret |-> <<>>, list |-> [k \in Lists |-> <<>>],
         adm |-> <<>>, sub |-> <<>>, pub |-> <<>>]
Fresh == [Zero EXCEPT !.lim = DefaultLimits]
Pos(x) == x # "0" /\ SubSeq(x, 1, 1) # "-"
Some(cond, v) == IF cond THEN <<v>> ELSE <<>>
(* the documents: what is stated and nothing else *)
Limitation(i) == [n |-> [k \in Limits |-> Some(Pos(i.lim[k]), i.lim[k])], flag |-> i.flag]
Retention(x) == [kinds |-> Some(x.kinds # <<>>, x.kinds), time |-> Some(x.time # "0", x.time), count |-> Some(Pos(x.count), x.count)]
Admission(x) == [amount |-> x.amount, unit |-> x.unit]
Subscription(x) == [amount |-> x.amount, unit |-> x.unit, period |-> Some(x.period # "0", x.period)]
Publication(x) == [amount |-> x.amount, unit |-> x.unit, kinds |-> Some(x.kinds # <<>>, x.kinds)]
Each(xs, F(_)) == [j \in DOMAIN xs |-> F(xs[j])]
Fees(i) == Some(i.adm # <<>> \/ i.sub # <<>> \/ i.pub # <<>>,
                [admission |-> Some(i.adm # <<>>, Each(i.adm, Admission)), subscription |-> Some(i.sub # <<>>, Each(i.sub, Subscription)), publication |-> Some(i.pub # <<>>, Each(i.pub, Publication))])
Doc(i) == [text |-> i.text, supported_nips |-> i.nips, limitation |-> Limitation(i), retention |-> Some(i.ret # <<>>, Each(i.ret, Retention)),
           list |-> [k \in Lists |-> Some(i.list[k] # <<>>, i.list[k])], fees |-> Fees(i)]
\* printing into n bytes a document of full bytes
Printed(op, d) == /\ op.r = (IF op.n > op.full THEN 0 ELSE 16) /\ op.len = op.full
                  /\ op.r = 0 => op.well /\ op.doc = d
Exec(s, op) ==
    CASE op.o = "init" -> {Fresh}
      [] op.o = "limits" -> {[s EXCEPT !.lim = DefaultLimits, !.flag = [k \in Flags |-> FALSE]]}
      [] op.o = "free" -> {Zero}
      [] op.o = "text" -> {[s EXCEPT !.text[op.k] = op.v]}
      [] op.o = "limit" -> {[s EXCEPT !.lim[op.k] = op.v]}
      [] op.o = "flag" -> {[s EXCEPT !.flag[op.k] = op.v]}
      [] op.o = "list" -> {[s EXCEPT !.list[op.k] = op.v]}
      [] op.o = "ret" -> {[s EXCEPT !.ret = op.v]}
      [] op.o = "fees" -> {[s EXCEPT !.adm = op.adm, !.sub = op.sub, !.pub = op.pub]}
      [] op.o = "setnips" -> IF op.r = 0 THEN {[s EXCEPT !.nips = op.v]} ELSE IF op.oom THEN {s, [s EXCEPT !.nips = <<>>]} ELSE {}
      [] op.o = "addnip" -> IF op.r = 0 THEN {[s EXCEPT !.nips = Append(@, op.v)]} ELSE IF op.oom THEN {s} ELSE {}
      [] op.o = "info" -> IF Printed(op, Doc(s)) THEN {s} ELSE {}
      [] op.o = "limitation" -> IF Printed(op, Limitation(s)) THEN {s} ELSE {}
      [] op.o = "null" -> IF op.r # 0 THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
