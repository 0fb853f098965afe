-------------------------- MODULE MC_Zap --------------------------
(* A wallet counts zaps from receipts that an adversary composes.            *)
EXTENDS Zap, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, h
Invoices == {<<>>, <<Lnbc \o <<50, 117, 49, 112, 113>>>>, <<Lnbc \o <<50, 49, 112, 113>>>>, <<Lnbc \o <<49, 112, 113>>>>, <<Lnbc \o <<53, 110, 49, 113>>>>, <<Lnbc \o <<50, 48, 112, 49, 113>>>>}
Reqs == {<<>>, <<<<53, 48, 48>>>>, <<<<50, 48, 48, 48, 48, 48>>>>, <<<<48>>>>, <<<<120>>>>}
Srv == [i \in 1..2 |-> 7]
Init == s = {} /\ h = <<>>
Next == Len(h) < Depth /\
  \E inv \in Invoices, q \in Reqs, k \in {ReceiptKind, 1}, rk \in {RequestKind, 1}, d \in {"same", "other", "bad", "none"}, sv \in BOOLEAN, sg \in BOOLEAN, r \in {0, 1} :
    LET op == [o |-> "verify", kind |-> k, rkind |-> rk, author |-> Srv, server |-> IF sv THEN HexOf(Srv) ELSE HexOf(<<7, 8>>), rid |-> <<1>>, sigok |-> sg,
               tags |-> (IF inv = <<>> THEN <<>> ELSE <<<<NBolt, inv[1]>>>>) \o (IF d = "none" THEN <<>> ELSE <<<<NDesc, <<120>>>>>>),
               rtags |-> IF q = <<>> THEN <<>> ELSE <<<<NAmount, q[1]>>>>, desc |-> [ok |-> d \in {"same", "other"}, id |-> IF d = "same" THEN <<1>> ELSE <<2>>],
               r |-> r, oom |-> FALSE]
    IN \E t \in Exec(s, op) : s' = t /\ h' = Append(h, op @@ [inv |-> inv, q |-> q, d |-> d, sv |-> sv])

\* nothing is counted as paid unless the right server says, under its signature, that this request was paid for its amount
Paid == s # {} => \E i \in 1..Len(h) : LET o == h[i] IN o.r = 0 /\ o.sv /\ o.sigok /\ o.d = "same" /\ o.kind = ReceiptKind /\ o.rkind = RequestKind
              /\ (o.q = <<<<53, 48, 48>>>> => o.inv = <<Lnbc \o <<53, 110, 49, 113>>>>)
              /\ (o.q = <<<<50, 48, 48, 48, 48, 48>>>> => o.inv = <<Lnbc \o <<50, 117, 49, 112, 113>>>>)
Decided == \A inv \in Invoices : Cardinality(Amounts(inv)) = 1
Emit == (Len(h) = Depth) => CSVWrite("%1$s", <<ToJson([i \in 1..Len(h) |-> [inv |-> h[i].inv, q |-> h[i].q, d |-> h[i].d, sv |-> h[i].sv, sg |-> h[i].sigok, kind |-> h[i].kind, rkind |-> h[i].rkind]])>>, IOEnv.GEN)
View == <<s, IF h = <<>> THEN h ELSE h[Len(h)]>>
=============================================================================
