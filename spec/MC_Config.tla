----------------------------- MODULE MC_Config ------------------------------
EXTENDS Config, TLC, Json, IOUtils, CSV
CONSTANT Depth
VARIABLES s, h, told
vars == <<s, h, told>>
A == [Defaults EXCEPT ![3] = U32(1), ![7] = U32(2)]  C == [Defaults EXCEPT ![8] = U32(1), ![6] = U32(1024)]
Bad == [Defaults EXCEPT ![1] = U32(5), ![2] = U32(4)]
Cfgs == {A, C, Bad}
NoEnv == [i \in 1..13 |-> <<>>]
Envs == {NoEnv, [NoEnv EXCEPT ![3] = <<<<50>>>>, ![11] = <<<<52>>>>], [NoEnv EXCEPT ![3] = <<<<48>>>>], [NoEnv EXCEPT ![3] = <<<<45, 49>>>>, ![10] = <<<<51, 48, 48, 48, 48, 48>>>>]}
Inner == {<<>>} \cup {<<x>> : x \in {[o |-> "current"]} \cup [o : {"update"}, c : {C, Bad}] \cup [o : {"setcb"}, n : {0, 3}]}
\* a call with what a correct library answers
Fill1(t, a) == CASE a.o = "current" -> a @@ [cfg |-> <<t.cfg>>] [] a.o = "update" -> a @@ [r |-> Update1(t, a.c).r] [] OTHER -> a @@ [r |-> 0]
Calls == {[o |-> "null", r |-> 11], [o |-> "start", r |-> 0], [o |-> "stop", r |-> 0], [o |-> "current", cfg |-> IF s.on THEN <<s.cfg>> ELSE <<>>]}
         \cup {[o |-> "init", c |-> c, r |-> Init1(s, c).r] : c \in Cfgs} \cup {[o |-> "initenv", env |-> e, r |-> Init1(s, Env(Defaults, e)).r] : e \in Envs}
         \cup {[o |-> "setcb", n |-> n, r |-> 0] : n \in {0, 1, 2}}
         \cup {[o |-> "held", c |-> c, seen |-> s.cfg, r |-> Update1(s, c).r, other |-> Update1(s, c).s.cfg, after |-> s.cfg] : c \in {A, Bad}}
         \cup {LET y == Update1(s, c)  t == Told(s, c, y.r)  as == IF t = <<>> \/ a = <<>> THEN <<>> ELSE <<Fill1(y.s, a[1])>>
               IN [o |-> "update", c |-> c, r |-> y.r, acts |-> as, told |-> t \o Acts(y.s, as).told] : c \in Cfgs, a \in Inner}
Init == s = Start /\ h = <<>> /\ told = <<>>
Next == Len(h) < Depth /\ \E op \in Calls : \E t \in Exec(s, op) : s' = t /\ h' = Append(h, op) /\ told' = IF op.o = "update" THEN told \o op.told ELSE <<>>
TypeOk == Valid(s.cfg) /\ (~s.on => s.cfg = Defaults)
Answered == \A op \in Calls : op.o = "held" \/ Exec(s, op) # {}
\* the installed configuration only changes by a successful change the callback (if any) was told about, old to new
Chained == [][/\ (s.on => s'.on)
              /\ (s.on /\ s'.cfg # s.cfg => h'[Len(h')].o \in {"update", "held"})
              /\ LET op == h'[Len(h')] IN op.o = "update" /\ s.cb # 0 /\ op.r = 0 =>
                   /\ op.told[1].old = s.cfg /\ (op.acts = <<>> => op.told[Len(op.told)].new = s'.cfg)
                   /\ \A i \in 1..Len(op.told) - 1 : op.told[i].new = op.told[i + 1].old]_vars
View == s
Emit == Len(h) = Depth => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
=============================================================================
