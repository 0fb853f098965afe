------------------------------- MODULE Config -------------------------------
(* P20.  The library's configuration: state = whether one is installed, the  *)
(* current one, and the change callback given last.  A configuration is the  *)
(* sequence of its 13 fields; the first ten are 32-bit sizes [h, l] (high    *)
(* and low 16 bits), the last three are integers.                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
U32(n) == [h |-> n \div 65536, l |-> n % 65536]
N(u) == IF u.h > 32767 THEN 2147483647 ELSE u.h * 65536 + u.l
Defaults == <<U32(1), U32(65535), U32(100), U32(3600), U32(32), U32(65536), U32(100), U32(50), U32(30000), U32(10000), 44, 0, 0>>
In(u, lo, hi) == N(u) >= lo /\ N(u) <= hi
Valid(c) == /\ In(c[1], 1, 65535) /\ In(c[2], N(c[1]), 65535)      \* plaintext sizes
            /\ In(c[3], 1, 10000) /\ In(c[4], 60, 86400) /\ In(c[5], 1, 1000)   \* sessions
            /\ In(c[6], 1024, 1048576) /\ In(c[7], 1, 1000) /\ In(c[8], 1, 1000)  \* events
            /\ In(c[9], 1000, 300000) /\ In(c[10], 1000, 300000)      \* relay timeouts
            /\ c[11] \in {4, 44} /\ c[12] \in {0, 1} /\ c[13] \in {0, 1}
(* environment settings: a decimal number in range overrides, any other text does not *)
IsNum(t) == Len(t) > 0 /\ \A i \in DOMAIN t : t[i] \in 48..57
Dec(t) == FoldLeft(LAMBDA v, x : LET l == v.l * 10 + x - 48  h == v.h * 10 + l \div 65536 IN [h |-> IF h > 65535 THEN 65536 ELSE h, l |-> l % 65536], [h |-> 0, l |-> 0], t)
Size(t, d) == IF IsNum(t) /\ Dec(t).h < 65536 THEN Dec(t) ELSE d
Whole(t, d) == LET neg == Len(t) > 0 /\ t[1] = 45  u == IF neg THEN Tail(t) ELSE t  n == Dec(u) IN
             IF ~IsNum(u) \/ n.h > 32768 THEN d
             ELSE IF n.h < 32768 THEN (IF neg THEN 0 - N(n) ELSE N(n))
             ELSE IF neg /\ n.l = 0 THEN -2147483647 - 1 ELSE d
\* env: per field <<>> (not set) or <<text>>
Env(c, env) == [i \in 1..13 |-> IF env[i] = <<>> THEN c[i] ELSE IF i <= 10 THEN Size(env[i][1], c[i]) ELSE Whole(env[i][1], c[i])]
Start == [on |-> FALSE, cfg |-> Defaults, cb |-> 0]

Init1(s, c) == IF s.on THEN [s |-> s, r |-> 0] ELSE IF Valid(c) THEN [s |-> [s EXCEPT !.on = TRUE, !.cfg = c], r |-> 0] ELSE [s |-> s, r |-> 11]
Update1(s, c) == IF ~s.on THEN [s |-> s, r |-> 9] ELSE IF Valid(c) THEN [s |-> [s EXCEPT !.cfg = c], r |-> 0] ELSE [s |-> s, r |-> 11]
(* what the callback is told for an update, and what it may do itself: acts = the calls made in the first  *)
(* notification; each is answered as outside.  Result: [s, told]                                           *)
RECURSIVE Acts(_, _)
Told(s, c, r) == IF r = 0 /\ s.cb # 0 THEN <<[old |-> s.cfg, new |-> c, n |-> s.cb]>> ELSE <<>>
One(s, a) == CASE a.o = "current" -> [s |-> s, ok |-> a.cfg = <<s.cfg>>, told |-> <<>>]
               [] a.o = "update" -> LET y == Update1(s, a.c) IN [s |-> y.s, ok |-> a.r = y.r, told |-> Told(s, a.c, y.r)]
               [] a.o = "setcb" -> [s |-> [s EXCEPT !.cb = a.n], ok |-> a.r = 0, told |-> <<>>]
Acts(s, as) == IF as = <<>> THEN [s |-> s, ok |-> TRUE, told |-> <<>>]
               ELSE LET x == One(s, as[1])  y == Acts(x.s, Tail(as)) IN [s |-> y.s, ok |-> x.ok /\ y.ok, told |-> x.told \o y.told]
Update(s, op) == LET y == Update1(s, op.c)  t == Told(s, op.c, y.r)
                     z == IF t = <<>> THEN [s |-> y.s, ok |-> op.acts = <<>>, told |-> <<>>] ELSE Acts(y.s, op.acts)
                 IN IF op.r = y.r /\ z.ok /\ op.told = t \o z.told THEN {z.s} ELSE {}
(* updates and readings by several threads: cfgs = every configuration involved (1 = before), up = the     *)
(* successful updates [to: its configuration, from, done: positions in one common order], told = what the  *)
(* callback was told [old, new], rd = readings [c (0: none of them), from, done]                           *)
Race(s, op, t) ==
    LET next == TLCEval([x \in {op.told[i].old : i \in DOMAIN op.told} |-> {op.told[i].new : i \in {j \in DOMAIN op.told : op.told[j].old = x}}])
        p == TLCEval(FoldLeft(LAMBDA q, x : IF q = <<>> \/ q[Len(q)] \notin DOMAIN next THEN <<>> ELSE Append(q, CHOOSE y \in next[q[Len(q)]] : TRUE), <<1>>, op.up))
        pos == TLCEval([c \in {p[i] : i \in DOMAIN p} |-> CHOOSE i \in DOMAIN p : p[i] = c])
        upd(c) == CHOOSE i \in DOMAIN op.up : op.up[i].to = c
    IN /\ op.cfgs[1] = s.cfg /\ \A i \in DOMAIN op.cfgs : Valid(op.cfgs[i])
       /\ Len(op.told) = Len(op.up) /\ \A x \in DOMAIN next : Cardinality(next[x]) = 1
       /\ p # <<>> /\ {p[i] : i \in 2..Len(p)} = {op.up[i].to : i \in DOMAIN op.up} /\ Cardinality(DOMAIN pos) = Len(p)
       /\ \A i, j \in DOMAIN op.up : op.up[i].done < op.up[j].from => pos[op.up[i].to] < pos[op.up[j].to]
       /\ \A i \in DOMAIN op.rd : /\ op.rd[i].c \in DOMAIN pos
                                  /\ (op.rd[i].c # 1 => op.up[upd(op.rd[i].c)].from < op.rd[i].done)
                                  /\ \A j \in DOMAIN op.up : op.up[j].done < op.rd[i].from => pos[op.up[j].to] <= pos[op.rd[i].c]
       /\ t.cfg = op.cfgs[p[Len(p)]]
Exec(s, op) ==
    CASE op.o = "defaults" -> IF op.out = Defaults THEN {s} ELSE {}
      [] op.o = "null" -> IF op.r = 11 THEN {s} ELSE {}
      [] op.o = "validate" -> IF op.r = (IF Valid(op.c) THEN 0 ELSE 11) THEN {s} ELSE {}
      [] op.o = "env" -> IF op.r = 0 /\ op.out = Env(op.c, op.env) THEN {s} ELSE {}
      [] op.o = "init" -> LET y == Init1(s, op.c) IN IF op.r = y.r THEN {y.s} ELSE {}
      [] op.o = "initenv" -> LET y == Init1(s, Env(Defaults, op.env)) IN IF op.r = y.r THEN {y.s} ELSE {}
      [] op.o \in {"start", "stop"} -> IF op.r = 0 THEN {s} ELSE {}         \* starting and stopping the library keep the configuration
      [] op.o = "current" -> IF op.cfg = (IF s.on THEN <<s.cfg>> ELSE <<>>) THEN {s} ELSE {}
      [] op.o = "setcb" -> IF op.r = 0 THEN {[s EXCEPT !.cb = op.n]} ELSE {}
      [] op.o = "update" -> Update(s, op)
         \* events are held to the current limits: content and tags of a parsed event, tags added one by one, values of a tag
      [] op.o = "limits" -> IF /\ op.content = (~s.on \/ op.len <= N(s.cfg[6])) /\ op.tags = (~s.on \/ op.count <= N(s.cfg[7]))
                               /\ op.added = (IF s.on /\ op.count > N(s.cfg[7]) THEN N(s.cfg[7]) ELSE op.count)
                               /\ op.tag = (~s.on \/ op.values <= N(s.cfg[8])) THEN {s} ELSE {}
         \* what one thread was given stays as it was while another thread updates and asks
      [] op.o = "held" -> LET y == Update1(s, op.c) IN IF s.on /\ op.seen = s.cfg /\ op.r = y.r /\ op.other = y.s.cfg /\ op.after = s.cfg THEN {y.s} ELSE {}
         \* several threads installing different configurations: one wins and all see it
      [] op.o = "initrace" -> IF ~s.on /\ \A i \in DOMAIN op.rs : op.rs[i] = 0 THEN {[s EXCEPT !.on = TRUE, !.cfg = c] : c \in {op.cs[i] : i \in {j \in DOMAIN op.cs : \A k \in DOMAIN op.seen : op.seen[k] = op.cs[j]}}} ELSE {}
      [] op.o = "race" /\ op.failed = 0 -> {t \in {[s EXCEPT !.cfg = op.cfgs[i]] : i \in DOMAIN op.cfgs} : s.on /\ Race(s, op, t)}
      [] OTHER -> {}
=============================================================================
