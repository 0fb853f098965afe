-------------------------------- MODULE Subs --------------------------------
(* P06.  A relay's subscriptions: state = the open subscriptions (id ->     *)
(* filters).  An event is delivered to exactly those with a matching filter.*)
EXTENDS Filter
\* closing an unknown id and replacing an open one are both ordinary
Exec(s, op) ==
    CASE op.o = "req" -> IF op.r = 0 THEN {[x \in DOMAIN s \cup {op.sub} |-> IF x = op.sub THEN op.filters ELSE s[x]]} ELSE {}
      [] op.o = "close" -> IF op.r = 0 THEN {[x \in DOMAIN s \ {op.sub} |-> s[x]]} ELSE {}
         \* to: the subscriptions the event was delivered to
      [] op.o = "event" -> IF \A x \in DOMAIN s : (x \in Range(op.to)) \in AnyOf([i \in 1..Len(s[x]) |-> Matches(s[x][i], op.ev)])
                              /\ Range(op.to) \subseteq DOMAIN s
                           THEN {s} ELSE {}
         \* one filter list against one event, with a search callback answering ans[i] for filter i
      [] op.o = "search" -> IF op.r \in AnyOf([i \in 1..Len(op.filters) |-> MatchesSearch(op.filters[i], op.ev, op.cb, op.ans[i])]) THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
