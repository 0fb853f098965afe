-------------------------- MODULE MC_RelayClient ---------------------------
EXTENDS RelayClient, Json, IOUtils, CSV
CONSTANTS Depth, Relays
VARIABLES s, h, clock, num
U == [scheme |-> "ws", host |-> "relay.example", colon |-> FALSE, port |-> <<>>, path |-> "", hp |-> "relay.example"]
BadU == [U EXCEPT !.scheme = "http"]
Ids == {"a", "b"}
Idb(x) == IF x = "a" THEN <<97>> ELSE <<98>>
Acts(i) == {<<>>} \cup {<<[at |-> n, op |-> o]>> : n \in {1, 2}, o \in
              {[o |-> "disconnect", i |-> i], [o |-> "destroy", i |-> i], [o |-> "unsub", i |-> i, id |-> "a", idb |-> Idb("a"), fail |-> "none"],
               [o |-> "connect", i |-> i, cb |-> TRUE, now |-> clock, fail |-> "none", u |-> U]}}
It(k, x) == [k |-> k, sub |-> x, ok |-> TRUE, type |-> k, body |-> "e1"]
ItemSet == {<<It("event", "a")>>, <<It("event", "b"), It("msg", "a")>>, <<It("closed", "a"), It("event", "a")>>, <<It("junk", "a"), It("event", "a")>>, <<It("event", "a"), It("event", "b"), It("msg", "b")>>}
Calls(i) == {[o |-> "destroy", i |-> i], [o |-> "disconnect", i |-> i], [o |-> "setcb", i |-> i, n |-> num], [o |-> "setcb", i |-> i, n |-> 0]}
            \cup {[o |-> "connect", i |-> i, cb |-> TRUE, now |-> clock, fail |-> f, u |-> U] : f \in {"none", "lws", "create", "thread"}}
            \cup {[o |-> "sub", i |-> i, id |-> x, idb |-> Idb(x), n |-> num, fok |-> TRUE, filters |-> "{}", fail |-> f] : x \in Ids, f \in {"none", "write"}}
            \cup {[o |-> "unsub", i |-> i, id |-> x, idb |-> Idb(x), fail |-> f] : x \in Ids, f \in {"none", "write"}}
            \cup {[o |-> "send", i |-> i, ev |-> "e1", fail |-> f] : f \in {"none", "write"}}
Events(i) == {[o |-> "established", i |-> i, fail |-> "none", act |-> a] : a \in {b \in Acts(i) : b = <<>> \/ b[1].at = 1}}
             \cup {[o |-> "closed", i |-> i, now |-> clock, fail |-> f, act |-> a] : f \in {"none", "lws"}, a \in {b \in Acts(i) : b = <<>> \/ b[1].at = 1}}
             \cup {[o |-> "message", i |-> i, fail |-> "none", items |-> x, act |-> a] : x \in ItemSet, a \in Acts(i)}
             \cup {[o |-> "partial", i |-> i, fail |-> "none", items |-> x, act |-> <<>>] : x \in {<<>>, <<It("event", "a")>>}}
\* the results an operation may have, completed with what a correct observer sees
Fill(op, x) == [op EXCEPT !.act = IF op.act = <<>> \/ (Len(x.dl) < op.act[1].at /\ op.o = "message") THEN <<>> ELSE op.act]
Results(i, op) ==
    IF op.o = "destroy" THEN {[R |-> s[i], gone |-> TRUE, r |-> 0]}
    ELSE IF op.o \in {"connect", "disconnect", "sub", "unsub", "send", "setcb"} THEN {[R |-> y.R, gone |-> FALSE, r |-> y.r] : y \in Call(s[i], op)} ELSE {}
ActR(i, op) == IF op.act = <<>> THEN {op} ELSE
    {[op EXCEPT !.act = <<[at |-> op.act[1].at, op |-> (op.act[1].op @@ [r |-> r, w |-> Wire(op.act[1].op @@ [r |-> r])])]>>] : r \in {0, 7, 11}}
Deliver(i, op) == IF op.o = "message" THEN Items(op, s[i]) ELSE IF op.o = "partial" THEN Partial(op, s[i]) ELSE IF op.o = "established" THEN Established(op, s[i]) ELSE Closed(op, s[i])
Feasible(i, op) == /\ s[i].wsi /\ (op.o = "established" => s[i].st = 1) /\ (op.o \in {"message", "partial"} => s[i].st = 2) /\ (s[i].cut => op.o = "closed")
After(i, gone, R) == IF gone THEN Drop(s, i) ELSE [s EXCEPT ![i] = R]
Init == s = None /\ h = <<>> /\ clock = 0 /\ num = 1
Step(op, t) == s' = t /\ h' = Append(h, op) /\ num' = num + 1 /\ clock' \in {clock, clock + 3}
Next == /\ Len(h) < Depth
        /\ \/ \E i \in Relays \ DOMAIN s : Step([o |-> "create", i |-> i], Put(s, i, Fresh))
           \/ \E i \in DOMAIN s : \E op \in Calls(i) : \E y \in Results(i, op) : Step(op, After(i, y.gone, y.R))
           \/ \E i \in DOMAIN s : \E op \in Events(i) : Feasible(i, op) /\ \E p \in ActR(i, op) : \E x \in Deliver(i, p) : Step(op, After(i, x.gone, x.R))
Coherent == \A i \in DOMAIN s : LET R == s[i] IN
    /\ (R.st \in {1, 2} => R.h /\ R.wsi) /\ (R.wsi => R.h /\ R.st \in {1, 2}) /\ (~R.h => DOMAIN R.subs = {})
    /\ (R.st = 3 => ~R.h) /\ (R.cut => R.wsi /\ R.st = 2)
\* every callback an application could still be called with was given to a subscription on this relay and is the last for its id
GivenLast == \A i \in DOMAIN s : \A x \in DOMAIN s[i].subs :
    \E k \in 1..Len(h) : /\ h[k].o = "sub" /\ h[k].i = i /\ h[k].id = x /\ h[k].n = s[i].subs[x]
                         /\ \A j \in k + 1..Len(h) : ~(h[j].i = i /\ (h[j].o \in {"destroy", "disconnect"} \/ (h[j].o = "unsub" /\ h[j].id = x /\ h[j].fail = "none")))
\* no delivery after a disconnect or destroy made in a callback, and no retry earlier than allowed
Quiet == \A i \in DOMAIN s : s[i].wsi => \A op \in Events(i) : op.act # <<>> /\ op.act[1].op.o \in {"destroy", "disconnect"} /\ Feasible(i, op) =>
            \A p \in ActR(i, op) : \A x \in Deliver(i, p) : Len(x.dl) <= op.act[1].at \/ ~x.end
Patient == \A i \in DOMAIN s : s[i].wsi => \A op \in Events(i) : op.o = "closed" /\ op.act = <<>> /\ op.now - s[i].last < RetryAfter => \A x \in Deliver(i, op) : ~x.R.cut /\ x.n = 0 /\ x.R.st = 0
View == <<s, clock>>
Emit == Len(h) = Depth => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
=============================================================================
