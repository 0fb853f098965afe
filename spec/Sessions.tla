------------------------------ MODULE Sessions ------------------------------
(* P27.  Sessions of Nostr Wallet Connect: who may still spend, on what, and *)
(* how much.                                                                 *)
(*                                                                           *)
(* State  ss     session id -> [conn, exp, perms]: the sessions in the table;*)
(*               exp is the last second it lives, conn the connection it     *)
(*               hands out ("" until asked), svc / own the wallet and client *)
(*               keys of its URI                                             *)
(*        old    every id ever given out                                     *)
(*        cap    places in the table      timeout, maxp   limits in force    *)
(*        win, cnt  second in which sessions were last created, how many     *)
(* A permission is [name, lim, iv, reset, used]: lim 0 is no limit; used is  *)
(* what was granted since the budget was last started; the budget starts     *)
(* again with the first check after second "reset".                          *)
(* Amounts are three limbs of base 10^7 (up to 2^64), seconds are counted    *)
(* from the start of the history and never reach Far.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Far == 2000000000
Base == 10000000
Rate == 10
Later(t, n) == IF n >= Far - t THEN Far ELSE t + n
Zero == <<0, 0, 0>>
Add(a, b) == LET l == a[3] + b[3]  m == a[2] + b[2] + (l \div Base) IN <<a[1] + b[1] + (m \div Base), m % Base, l % Base>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3])))
Init0 == [ss |-> [x \in {} |-> {}], old |-> {}, cap |-> 0, timeout |-> 3600, maxp |-> 32, win |-> -1, cnt |-> 0]
Known(s, id) == id \in DOMAIN s.ss
Alive(s, id, t) == Known(s, id) /\ t <= s.ss[id].exp
Without(f, D) == [x \in DOMAIN f \ D |-> f[x]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
\* the permission that decides about a method: the first one that names it or is for all
Decides(ps, m) == LET C == {i \in 1..Len(ps) : ps[i].name \in {m, "*"}} IN IF C = {} THEN 0 ELSE CHOOSE i \in C : \A j \in C : i <= j
Current(p, t) == IF p.reset < t THEN [p EXCEPT !.used = Zero, !.reset = Later(t, p.iv)] ELSE p
Allows(p, a) == p.lim = Zero \/ Leq(Add(p.used, a), p.lim)
Grant(p, a) == IF p.lim = Zero THEN p ELSE [p EXCEPT !.used = Add(@, a)]
Window(s, t) == IF s.win = t THEN s ELSE [s EXCEPT !.win = t, !.cnt = 0]
Swept(s, t) == [s EXCEPT !.ss = Without(s.ss, {x \in DOMAIN s.ss : s.ss[x].exp < t})]

Create(s, op) ==
    IF ~op.good THEN (IF op.r # 0 THEN {s} ELSE {})
    ELSE LET w == Window(s, op.t)  c == [w EXCEPT !.cnt = @ + 1]  e == Swept(c, op.t)  full == Cardinality(DOMAIN e.ss) >= s.cap IN
         IF op.r = 0 THEN IF w.cnt >= Rate \/ full \/ ~op.form \/ op.id \in s.old THEN {}
              ELSE {[e EXCEPT !.ss = Put(@, op.id, [conn |-> "", exp |-> Later(op.t, s.timeout), perms |-> <<>>, svc |-> op.svc, own |-> op.own]), !.old = @ \cup {op.id}]}
         ELSE IF op.left THEN {}
         ELSE (IF w.cnt >= Rate THEN {w} ELSE IF full \/ op.inj > 0 THEN {e} ELSE {}) \cup (IF op.inj > 0 THEN {s} ELSE {})
AddPerm(s, op) ==
    IF ~Known(s, op.id) THEN (IF op.r # 0 THEN {s} ELSE {})
    ELSE LET p == [name |-> op.m, lim |-> op.lim, iv |-> op.iv, reset |-> Later(op.t, op.iv), used |-> Zero]
             full == Len(s.ss[op.id].perms) >= s.maxp IN
         IF op.r = 0 THEN (IF full THEN {} ELSE {[s EXCEPT !.ss[op.id].perms = Append(@, p)]})
         ELSE IF full \/ op.inj > 0 \/ ~Alive(s, op.id, op.t) THEN {s} ELSE {}
Check(s, op) ==
    IF ~Alive(s, op.id, op.t) THEN (IF op.r # 0 THEN {s} ELSE {})
    ELSE LET ps == s.ss[op.id].perms  i == Decides(ps, op.m) IN
         IF i = 0 THEN (IF op.r # 0 THEN {s} ELSE {})
         ELSE LET p == Current(ps[i], op.t) IN
              IF Allows(p, op.a) THEN (IF op.r = 0 THEN {[s EXCEPT !.ss[op.id].perms[i] = Grant(p, op.a)]} ELSE {})
              ELSE IF op.r # 0 THEN {[s EXCEPT !.ss[op.id].perms[i] = p]} ELSE {}
\* one connection per session, no two sessions share one
Get(s, op) ==
    IF ~Alive(s, op.id, op.t) THEN (IF op.r # 0 THEN {s} ELSE {})
    ELSE IF op.r = 0 /\ op.conn # "" /\ s.ss[op.id].conn \in {"", op.conn} /\ (\A x \in DOMAIN s.ss \ {op.id} : s.ss[x].conn # op.conn)
            /\ (op.seen => op.own = s.ss[op.id].own /\ op.svc = s.ss[op.id].svc)
         THEN {[s EXCEPT !.ss[op.id].conn = op.conn]} ELSE {}
Extend(s, op) ==
    IF ~Alive(s, op.id, op.t) THEN (IF op.r # 0 THEN {s} ELSE {})
    ELSE IF op.r = 0 THEN {[s EXCEPT !.ss[op.id].exp = Later(@, op.secs)]} ELSE {}
Destroy(s, op) ==
    IF ~Known(s, op.id) THEN (IF op.r # 0 THEN {s} ELSE {})
    ELSE IF op.r = 0 THEN {[s EXCEPT !.ss = Without(@, {op.id})]}
    ELSE IF ~Alive(s, op.id, op.t) THEN {s} ELSE {}
Step(s, op) ==
    CASE op.o = "start" -> {[s EXCEPT !.cap = op.cap, !.timeout = op.timeout, !.maxp = op.maxp]}
      [] op.o = "create" -> Create(s, op)
      [] op.o = "add" -> AddPerm(s, op)
      [] op.o = "check" -> Check(s, op)
      [] op.o = "get" -> Get(s, op)
      [] op.o = "extend" -> Extend(s, op)
      [] op.o = "destroy" -> Destroy(s, op)
      [] op.o = "limits" -> IF op.r = 0 THEN {[s EXCEPT !.timeout = op.timeout, !.maxp = op.maxp]} ELSE {}
         \* an argument that is missing
      [] op.o = "null" -> IF op.r # 0 THEN {s} ELSE {}
      [] OTHER -> {}
\* calls of several threads: some order of them that keeps each thread's own explains the answers
RECURSIVE Lin(_, _)
Lin(s, rem) == LET todo == {k \in 1..Len(rem) : rem[k] # <<>>} IN
    IF todo = {} THEN {s}
    ELSE UNION {UNION {Lin(x, [rem EXCEPT ![k] = Tail(@)]) : x \in Step(s, Head(rem[k]))} : k \in todo}
Exec(s, op) == IF op.o = "par" THEN Lin(s, op.threads) ELSE Step(s, op)
=============================================================================
