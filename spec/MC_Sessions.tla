----------------------------- MODULE MC_Sessions -----------------------------
(* Every history of a small table.  "granted" is a second account of what was *)
(* allowed: it knows nothing of budgets, only when what was granted to whom.  *)
EXTENDS Sessions, Json, IOUtils, CSV
CONSTANTS Depth, Ids, Ticks, Amounts
VARIABLES s, t, h, granted, ended
A(n) == <<0, 0, n>>
Init == s = [Init0 EXCEPT !.cap = 2, !.timeout = 2, !.maxp = 2] /\ t = 0 /\ h = <<>> /\ granted = <<>> /\ ended = {}
Do(op) == \E x \in Step(s, op) : s' = x /\ ended' = ended \cup (DOMAIN s.ss \ DOMAIN x.ss) \cup {i \in DOMAIN s.ss : s.ss[i].exp < t}
Log(e) == h' = Append(h, e)
Fresh == {i \in Ids : i \notin s.old}
Next == Len(h) < Depth /\
    \/ Fresh # {} /\ LET i == CHOOSE i \in Fresh : \A j \in Fresh : i <= j IN
         \E r \in {0, 4} : Do([o |-> "create", good |-> TRUE, t |-> t, r |-> r, id |-> i, form |-> TRUE, left |-> FALSE, inj |-> 0, svc |-> "w", own |-> "c"])
                           /\ Log([o |-> "create"]) /\ UNCHANGED <<t, granted>>
    \/ \E i \in s.old, m \in {"pay", "*"}, l \in {0, 5}, v \in {0, 1} : Do([o |-> "add", id |-> i, m |-> m, lim |-> A(l), iv |-> v, t |-> t, r |-> 0, inj |-> 0]) /\ Log([o |-> "add", i |-> i, m |-> m, l |-> l, v |-> v]) /\ UNCHANGED <<t, granted>>
    \/ \E i \in s.old, m \in {"pay", "list"}, a \in Amounts, r \in {0, 11} :
         /\ Do([o |-> "check", id |-> i, m |-> m, a |-> A(a), t |-> t, r |-> r]) /\ Log([o |-> "check", i |-> i, m |-> m, a |-> a]) /\ t' = t
         /\ granted' = IF r = 0 THEN Append(granted, [i |-> i, t |-> t, a |-> a, by |-> Decides(s.ss[i].perms, m)]) ELSE granted
    \/ \E i \in s.old, r \in {0, 11} : Do([o |-> "extend", id |-> i, secs |-> 1, t |-> t, r |-> r]) /\ Log([o |-> "extend", i |-> i]) /\ UNCHANGED <<t, granted>>
    \/ \E i \in s.old : Do([o |-> "destroy", id |-> i, t |-> t, r |-> 0]) /\ Log([o |-> "destroy", i |-> i]) /\ UNCHANGED <<t, granted>>
    \/ \E d \in Ticks : t' = t + d /\ Log([o |-> "tick", d |-> d]) /\ UNCHANGED <<s, granted>> /\ ended' = ended \cup {i \in DOMAIN s.ss : s.ss[i].exp < t + d}
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1].a + Sum(Tail(q))
Within(i, k, from, to) == Sum(SelectSeq(granted, LAMBDA g : g.i = i /\ g.by = k /\ g.t >= from /\ g.t <= to))
\* in no second more than the limit was granted (two where a budget ends within it), and at most two budgets in any span of one interval
Bounded == \A i \in DOMAIN s.ss : \A k \in 1..Len(s.ss[i].perms) : LET p == s.ss[i].perms[k] IN
    p.lim # Zero => \A from \in 0..t : Within(i, k, from, from) <= p.lim[3] /\ Within(i, k, from, from + p.iv) <= 2 * p.lim[3]
Table == Cardinality(DOMAIN s.ss) <= s.cap /\ (\A i \in DOMAIN s.ss : Len(s.ss[i].perms) <= s.maxp) /\ DOMAIN s.ss \subseteq s.old /\ s.cnt <= Rate
\* what has ended stays ended
Dead == \A i \in ended : ~Alive(s, i, t) /\ Check(s, [id |-> i, t |-> t, m |-> "pay", a |-> Zero, r |-> 0]) = {} /\ Extend(s, [id |-> i, t |-> t, secs |-> 100, r |-> 0]) = {}
\* every question has exactly one answer
Decided == \A i \in Ids, m \in {"pay", "list"}, a \in Amounts : Cardinality({r \in {0, 11} : Check(s, [id |-> i, t |-> t, m |-> m, a |-> A(a), r |-> r]) # {}}) = 1
ASSUME Add(<<1, 9999999, 9999999>>, <<0, 0, 1>>) = <<2, 0, 0>> /\ Leq(<<184467, 4407370, 9551615>>, <<184467, 4407370, 9551615>>) /\ ~Leq(Add(<<184467, 4407370, 9551615>>, A(1)), <<184467, 4407370, 9551615>>)
\* two threads asking for 3 of 5 at once: one of them is granted
ASSUME LET q == [Init0 EXCEPT !.cap = 1]  u == CHOOSE u \in Step(q, [o |-> "create", good |-> TRUE, t |-> 0, r |-> 0, id |-> 1, form |-> TRUE, left |-> FALSE, inj |-> 0, svc |-> "", own |-> ""]) : TRUE
           v == CHOOSE v \in Step(u, [o |-> "add", id |-> 1, m |-> "*", lim |-> A(5), iv |-> 9, t |-> 0, r |-> 0, inj |-> 0]) : TRUE
           c(r) == [o |-> "check", id |-> 1, m |-> "x", a |-> A(3), t |-> 0, r |-> r]
           P(x, y) == Exec(v, [o |-> "par", threads |-> <<<<c(x)>>, <<c(y)>>>>]) IN P(0, 0) = {} /\ P(11, 11) = {} /\ P(0, 11) # {} /\ P(11, 0) # {}
Emit == (Len(h) = Depth) => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
View == <<s, t, granted, ended, Len(h)>>
=============================================================================
