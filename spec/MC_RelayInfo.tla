---------------------------- MODULE MC_RelayInfo ----------------------------
EXTENDS RelayInfo, Json, IOUtils, CSV
CONSTANT Depth
VARIABLES s, h
Fee == [amount : {"0", "3000"}, unit : {<<>>, <<"sats">>}, period : {"0", "60"}, kinds : {<<>>, <<"4">>}]
UpTo1(S) == {<<>>} \cup {<<x>> : x \in S}
Ret == [kinds : {<<>>, <<"0", "7">>}, time : {"0", "-1", "3600"}, count : {"-5", "0", "9"}]
Calls == [o : {"init", "limits", "free"}] \cup [o : {"text"}, k : {"name", "self"}, v : {<<>>, <<"">>, <<"x">>}] \cup [o : {"limit"}, k : {"max_limit", "created_at_upper_limit"}, v : {"0", "-1", "7"}]
         \cup [o : {"flag"}, k : Flags, v : BOOLEAN] \cup [o : {"list"}, k : Lists, v : {<<>>, <<"a", "b">>}] \cup [o : {"ret"}, v : UpTo1(Ret)]
         \cup [o : {"fees"}, adm : UpTo1(Fee), sub : UpTo1({f \in Fee : f.kinds = <<>> /\ f.amount = "3000"}), pub : UpTo1({f \in Fee : f.period = "0" /\ f.unit = <<>>})]
         \cup [o : {"setnips"}, v : {<<>>, <<"1", "11">>}, r : {0, 17}, oom : {TRUE}] \cup [o : {"addnip"}, v : {"42"}, r : {0, 17}, oom : {TRUE}]
Init == s = Zero /\ h = <<>>
Next == Len(h) < Depth /\ \E op \in Calls : \E t \in Exec(s, op) : s' = t /\ h' = Append(h, op)
(* reading a document back gives the information, up to what NIP-11 does not state *)
Or(o, d) == IF o = <<>> THEN d ELSE o[1]
Normal(i) == [i EXCEPT !.lim = [k \in Limits |-> IF Pos(i.lim[k]) THEN i.lim[k] ELSE "0"],
                       !.ret = [j \in DOMAIN i.ret |-> [i.ret[j] EXCEPT !.count = IF Pos(@) THEN @ ELSE "0"]],
                       !.adm = [j \in DOMAIN i.adm |-> [i.adm[j] EXCEPT !.period = "0", !.kinds = <<>>]],
                       !.sub = [j \in DOMAIN i.sub |-> [i.sub[j] EXCEPT !.kinds = <<>>]],
                       !.pub = [j \in DOMAIN i.pub |-> [i.pub[j] EXCEPT !.period = "0"]]]
ReadFee(f, p, k) == [amount |-> f.amount, unit |-> f.unit, period |-> p, kinds |-> k]
Read(d) == LET fs == Or(d.fees, [admission |-> <<>>, subscription |-> <<>>, publication |-> <<>>]) IN
    [text |-> d.text, nips |-> d.supported_nips, lim |-> [k \in Limits |-> Or(d.limitation.n[k], "0")], flag |-> d.limitation.flag,
     ret |-> [j \in DOMAIN Or(d.retention, <<>>) |-> LET x == d.retention[1][j] IN [kinds |-> Or(x.kinds, <<>>), time |-> Or(x.time, "0"), count |-> Or(x.count, "0")]],
     list |-> [k \in Lists |-> Or(d.list[k], <<>>)],
     adm |-> [j \in DOMAIN Or(fs.admission, <<>>) |-> ReadFee(fs.admission[1][j], "0", <<>>)],
     sub |-> [j \in DOMAIN Or(fs.subscription, <<>>) |-> ReadFee(fs.subscription[1][j], Or(fs.subscription[1][j].period, "0"), <<>>)],
     pub |-> [j \in DOMAIN Or(fs.publication, <<>>) |-> ReadFee(fs.publication[1][j], "0", Or(fs.publication[1][j].kinds, <<>>))]]
Faithful == Read(Doc(s)) = Normal(s)
View == s
Emit == Len(h) = Depth => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
=============================================================================
