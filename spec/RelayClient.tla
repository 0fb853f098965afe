---------------------------- MODULE RelayClient ----------------------------
(* P26.  The relay client: state = the relays a program holds; each has a    *)
(* connection state (0 disconnected, 1 connecting, 2 connected, 3 failed), a *)
(* service context while h, a live connection while wsi, its subscriptions   *)
(* (id -> number of the callback given last) and its message callback.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
None == [x \in {} |-> 0]
Fresh == [st |-> 0, h |-> FALSE, wsi |-> FALSE, subs |-> None, mcb |-> 0, last |-> 0, cut |-> FALSE]   \* cut: in the middle of a message that has not ended
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Released(R) == [R EXCEPT !.h = FALSE, !.wsi = FALSE, !.subs = None, !.cut = FALSE]
Disconnected(R) == [Released(R) EXCEPT !.st = 0]
Connecting(R, now) == [Released(R) EXCEPT !.st = 1, !.h = TRUE, !.wsi = TRUE, !.last = now]
\* subscription ids: 1 to 256 characters, none of which needs escaping
IdOk(b) == Len(b) \in 1..256 /\ \A i \in DOMAIN b : b[i] >= 32 /\ b[i] \notin {34, 92}
RetryAfter == 5
\* where a relay URL leads (u: its parts as the harness put them together)
Scheme(u) == u.scheme \in {"ws", "wss"}
PortOk(u) == ~u.colon \/ (Len(u.port) \in 1..5 /\ \A i \in DOMAIN u.port : u.port[i] \in 0..9)
PortNo(u) == LET n[i \in 0..Len(u.port)] == IF i = 0 THEN 0 ELSE n[i - 1] * 10 + u.port[i] IN n[Len(u.port)]
UrlOk(u) == Scheme(u) /\ PortOk(u) /\ (u.colon => PortNo(u) \in 1..65535)
Target(u, t) == /\ t.addr = u.host /\ t.ssl = (u.scheme = "wss") /\ t.path = u.path
                /\ t.hp = u.hp /\ t.port = IF u.colon THEN PortNo(u) ELSE IF u.scheme = "wss" THEN 443 ELSE 80

(* what one call does to a relay: the set of [R, r] allowed; "gone" when destroyed *)
Connect(R, op) ==
    IF ~op.cb THEN {[R |-> R, r |-> 11]}
    ELSE IF R.st \in {1, 2} THEN {[R |-> R, r |-> 7]}
    ELSE IF op.fail = "create" THEN {[R |-> Released(R), r |-> 7]}
    ELSE IF ~UrlOk(op.u) THEN {[R |-> Released(R), r |-> 11]}
    ELSE IF op.fail = "lws" THEN {[R |-> [Released(R) EXCEPT !.st = 3], r |-> 7]}
    ELSE IF op.fail = "thread" THEN {[R |-> [Released(R) EXCEPT !.st = 3], r |-> 4]}
    ELSE {[R |-> Connecting(R, op.now), r |-> 0]}
Disconnect(R) == IF R.h THEN {[R |-> Disconnected(R), r |-> 0]} ELSE {[R |-> R, r |-> 11]}
Sub(R, op) == IF R.st # 2 \/ ~IdOk(op.idb) \/ ~op.fok THEN {[R |-> R, r |-> 11]}
              ELSE IF op.fail = "write" THEN {[R |-> R, r |-> 7]}
              ELSE {[R |-> [R EXCEPT !.subs = Put(R.subs, op.id, op.n)], r |-> 0]}
Unsub(R, op) == IF R.st # 2 \/ ~IdOk(op.idb) THEN {[R |-> R, r |-> 11]}
                ELSE IF op.fail = "write" THEN {[R |-> R, r |-> 7], [R |-> [R EXCEPT !.subs = Drop(R.subs, op.id)], r |-> 7]}
                ELSE {[R |-> [R EXCEPT !.subs = Drop(R.subs, op.id)], r |-> 0]}
Send(R, op) == IF R.st # 2 THEN {[R |-> R, r |-> 11]} ELSE IF op.fail = "write" THEN {[R |-> R, r |-> 7]} ELSE {[R |-> R, r |-> 0]}
Call(R, op) == CASE op.o = "connect" -> Connect(R, op)
                 [] op.o = "disconnect" -> Disconnect(R)
                 [] op.o = "sub" -> Sub(R, op)
                 [] op.o = "unsub" -> Unsub(R, op)
                 [] op.o = "send" -> Send(R, op)
                 [] op.o = "setcb" -> {[R |-> [R EXCEPT !.mcb = op.n], r |-> 0]}
\* what a call puts on the wire: nothing when it fails, otherwise exactly its message
Wire(op) == IF op.r # 0 THEN <<>>
            ELSE CASE op.o = "sub" -> <<[k |-> "REQ", id |-> op.id, body |-> op.filters]>>
                   [] op.o = "unsub" -> <<[k |-> "CLOSE", id |-> op.id, body |-> ""]>>
                   [] op.o = "send" -> <<[k |-> "EVENT", id |-> "", body |-> op.ev]>>
                   [] OTHER -> <<>>
Tried(R, op) == op.cb /\ R.st \notin {1, 2} /\ op.fail # "create" /\ UrlOk(op.u)

(* Calls made from inside a callback: op.act = <<[at, op]>>, made in the at-th delivery.  A state of      *)
(* delivery: [R, gone, dl, cbs: state reports, n: attempts, end: nothing follows]                *)
Acted(op, x, n) ==
    IF op.act = <<>> \/ op.act[1].at # n THEN {x}
    ELSE LET a == op.act[1].op IN
         IF a.o = "destroy" THEN {[x EXCEPT !.gone = TRUE, !.end = TRUE, !.R = Disconnected(x.R)]}
         ELSE {[x EXCEPT !.R = y.R, !.end = x.end \/ (a.o = "disconnect" /\ y.r = 0) \/ (a.o = "connect" /\ a.cb /\ x.R.st \notin {1, 2}),
                         !.n = @ + IF a.o = "connect" /\ Tried(x.R, a) THEN 1 ELSE 0,
                         !.cbs = IF a.o = "connect" /\ y.r = 0 THEN Append(x.cbs, 1) ELSE x.cbs] : y \in {z \in Call(x.R, a) : z.r = a.r /\ a.w = Wire(a)}}
Start(R) == [R |-> R, gone |-> FALSE, dl |-> <<>>, cbs |-> <<>>, end |-> FALSE, n |-> 0]

(* one element of a websocket message *)
Given(op, x, d) == LET y == [x EXCEPT !.dl = Append(x.dl, d)] IN Acted(op, y, Len(y.dl))
ToMsg(op, x, it) == IF x.R.mcb = 0 THEN {x} ELSE Given(op, x, [to |-> "msg", n |-> x.R.mcb, id |-> it.type, body |-> it.body])
Item(op, x, it) ==
    IF x.end THEN {x}
    ELSE CASE it.k = "event" -> IF it.ok /\ it.sub \in DOMAIN x.R.subs /\ x.R.subs[it.sub] # 0
                                THEN Given(op, x, [to |-> "sub", n |-> x.R.subs[it.sub], id |-> "", body |-> it.body]) ELSE {x}
           [] it.k = "closed" -> ToMsg(op, [x EXCEPT !.R.subs = Drop(x.R.subs, it.sub)], it)
           [] it.k = "msg" -> ToMsg(op, x, it)
           [] it.k = "ignored" -> {x}
           [] it.k = "odd" -> {x} \cup ToMsg(op, x, it)                \* malformed or oversized: may be shown, changes nothing
           [] it.k = "junk" -> {x, [x EXCEPT !.end = TRUE]}            \* the rest of this message may be unreadable
Items(op, R) == LET q[i \in 0..Len(op.items)] == IF i = 0 THEN {Start(R)} ELSE UNION {Item(op, x, op.items[i]) : x \in q[i - 1]}
                IN q[Len(op.items)]
\* a message that never ends: what was whole in it may have been delivered; nothing of it survives the connection
Partial(op, R) == UNION {{[x EXCEPT !.R.cut = TRUE] : x \in Items([op EXCEPT !.items = SubSeq(op.items, 1, n)], R)} : n \in 0..Len(op.items)}

(* the remote side ended the connection: reported, and retried when the last attempt is old enough *)
Retry(op, x) == IF x.end \/ op.now - x.R.last < RetryAfter THEN {x}
                ELSE LET y == [x EXCEPT !.R.last = op.now] IN
                     IF op.fail = "lws" THEN {[y EXCEPT !.n = @ + 1]}
                     ELSE {[y EXCEPT !.R.st = 1, !.R.wsi = TRUE, !.n = @ + 1, !.cbs = Append(y.cbs, 1)]}
Closed(op, R) == UNION {Retry(op, x) : x \in Acted(op, [Start([R EXCEPT !.st = 0, !.wsi = FALSE, !.cut = FALSE]) EXCEPT !.cbs = <<0>>], 1)}
Established(op, R) == Acted(op, [Start([R EXCEPT !.st = 2]) EXCEPT !.cbs = <<2>>], 1)

Live(s) == Cardinality({i \in DOMAIN s : s[i].h})
\* nothing touches a connection that is gone; one context per connected relay, none left behind; the state shown is the state
Seen(op, t) == op.misuse = 0 /\ op.live = Live(t) /\ (op.i \in DOMAIN t => op.st = t[op.i].st)
With(s, op, xs) == IF op.w # <<>> THEN {} ELSE {t \in {IF x.gone THEN Drop(s, op.i) ELSE [s EXCEPT ![op.i] = x.R] : x \in xs} : Seen(op, t)}
(* deliveries while other threads subscribe and unsubscribe: numbers are positions in one common order *)
Overlap(op) == /\ \A i \in DOMAIN op.dl : \E j \in DOMAIN op.sub :
                     /\ op.sub[j].id = op.dl[i].id /\ op.sub[j].n = op.dl[i].n
                     /\ op.sub[j].from < op.dl[i].at /\ op.dl[i].posted < op.sub[j].gone
               /\ \A p \in DOMAIN op.ev : \A j \in DOMAIN op.sub :
                     op.sub[j].id = op.ev[p].id /\ op.sub[j].done < op.ev[p].from /\ op.ev[p].to < op.sub[j].end
                        => Cardinality({i \in DOMAIN op.dl : op.dl[i].ev = op.ev[p].ev /\ op.dl[i].n = op.sub[j].n}) = 1
               /\ \A p \in DOMAIN op.ev : Cardinality({i \in DOMAIN op.dl : op.dl[i].ev = op.ev[p].ev}) <= 1
               /\ \A i \in 1..Len(op.dl) - 1 : op.dl[i].posted < op.dl[i + 1].posted     \* in the order sent
Exec(s, op) ==
    CASE op.o = "create" -> IF op.r = 0 /\ op.i \notin DOMAIN s THEN {t \in {Put(s, op.i, Fresh)} : Seen(op, t)} ELSE {}
      [] op.o = "null" -> IF op.r = 11 THEN {s} ELSE {}
      [] op.o = "overlap" -> IF op.misuse = 0 /\ Overlap(op) THEN {s} ELSE {}
      [] op.i \notin DOMAIN s -> {}
      [] op.o = "destroy" -> {t \in {Drop(s, op.i)} : Seen(op, t)}
      [] op.o = "connect" -> {t \in {[s EXCEPT ![op.i] = y.R] : y \in {z \in Connect(s[op.i], op) : z.r = op.r}} :
                                /\ Seen(op, t) /\ op.w = <<>> /\ op.att = IF Tried(s[op.i], op) THEN 1 ELSE 0
                                /\ op.cbs = IF op.r = 0 \/ (op.fail = "thread" /\ op.r = 4 /\ op.cbs # <<>>) THEN <<1>> ELSE <<>>
                                /\ (op.r = 0 => Target(op.u, op.t))}
      [] op.o = "disconnect" -> {t \in {[s EXCEPT ![op.i] = y.R] : y \in {z \in Disconnect(s[op.i]) : z.r = op.r}} : Seen(op, t) /\ op.cbs \in {<<>>, <<0>>} /\ op.w = <<>>}
      [] op.o \in {"sub", "unsub", "send", "setcb"} ->
            {t \in {[s EXCEPT ![op.i] = y.R] : y \in {z \in Call(s[op.i], op) : z.r = op.r}} : Seen(op, t) /\ op.w = Wire(op) /\ op.cbs = <<>>}
      [] ~s[op.i].wsi -> {}
      [] op.o = "established" -> With(s, op, {x \in Established(op, s[op.i]) : op.cbs = x.cbs /\ op.dl = <<>>})
      [] op.o = "closed" -> With(s, op, {x \in Closed(op, s[op.i]) : op.cbs = x.cbs /\ op.dl = <<>> /\ op.att = x.n})
      [] s[op.i].cut /\ op.o # "closed" -> {}
      [] op.o = "partial" -> With(s, op, {x \in Partial(op, s[op.i]) : op.dl = x.dl /\ op.cbs = <<>>})
      [] op.o = "message" -> With(s, op, {x \in Items(op, s[op.i]) : op.dl = x.dl /\ op.cbs \in {<<>>, <<0>>}})
      [] OTHER -> {}
=============================================================================
