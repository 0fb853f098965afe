-------------------------------- MODULE Heap --------------------------------
(* P33.  Resources.  State: the objects a program holds, the value of each,   *)
(* the blocks of memory each one owns, and the blocks the library holds in    *)
(* all.  op.want is what the same call does when nothing fails; op.inj counts *)
(* the failures injected into this call (allocations, randomness).            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Empty == [x \in {} |-> 0]
Start == [val |-> Empty, own |-> Empty, live |-> 0]
Objs(s) == DOMAIN s.val
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Sum(f) == SumOver(f, DOMAIN f)
\* an error has a cause: the input, or a failure that was injected
MayFail(op) == op.inj > 0 \/ ~op.want.ok
IsPrefix1(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

Make(s, op) ==   \* a call that hands out a new object
    IF op.ok THEN (IF op.want.ok /\ op.val = op.want.val /\ op.x \notin Objs(s) /\ op.live >= s.live
                   THEN {[val |-> Put(s.val, op.x, op.val), own |-> Put(s.own, op.x, op.live - s.live), live |-> op.live]} ELSE {})
    ELSE IF MayFail(op) /\ ~op.left /\ op.live = s.live THEN {s} ELSE {}
Change(s, op) == \* a call that changes an object it was given
    IF op.x \notin Objs(s) \/ op.live + s.own[op.x] < s.live THEN {}
    ELSE LET t(v) == [val |-> Put(s.val, op.x, v), own |-> Put(s.own, op.x, op.live + s.own[op.x] - s.live), live |-> op.live] IN
         IF op.ok THEN (IF op.want.ok /\ op.val = op.want.val THEN {t(op.val)} ELSE {})
         ELSE IF MayFail(op) /\ op.val = s.val[op.x] THEN {t(op.val)} ELSE {}
Extend(s, op) == \* a call that appends several tags: after a failure the first of them may be there
    IF op.x \notin Objs(s) \/ op.live + s.own[op.x] < s.live THEN {}
    ELSE LET t(v) == [val |-> Put(s.val, op.x, v), own |-> Put(s.own, op.x, op.live + s.own[op.x] - s.live), live |-> op.live] IN
         IF op.ok THEN (IF op.want.ok /\ op.val = op.want.val THEN {t(op.val)} ELSE {})
         ELSE IF MayFail(op) /\ op.val.rest = s.val[op.x].rest /\ IsPrefix1(s.val[op.x].tags, op.val.tags) /\ IsPrefix1(op.val.tags, op.want.val.tags) THEN {t(op.val)} ELSE {}
Redo(s, op) ==   \* signing, mining: a failure may leave what is derived from the rest changed, not the rest
    IF op.x \notin Objs(s) \/ op.live + s.own[op.x] < s.live THEN {}
    ELSE LET t(v) == [val |-> Put(s.val, op.x, v), own |-> Put(s.own, op.x, op.live + s.own[op.x] - s.live), live |-> op.live] IN
         IF op.ok THEN (IF op.want.ok /\ op.val = op.want.val THEN {t(op.val)} ELSE {})
         ELSE IF MayFail(op) /\ op.val.core = s.val[op.x].core THEN {t(op.val)} ELSE {}
Ask(s, op) ==    \* a call that only answers
    IF op.live # s.live \/ op.vals # [x \in Objs(s) |-> s.val[x]] THEN {}
    ELSE IF op.ok THEN (IF op.want.ok /\ op.val = op.want.val THEN {s} ELSE {})
    ELSE IF MayFail(op) THEN {s} ELSE {}
Free(s, op) ==   \* disposal gives back exactly what the object owned
    IF op.x \notin Objs(s) \/ op.live + s.own[op.x] # s.live THEN {}
    ELSE {[val |-> Drop(s.val, op.x), own |-> Drop(s.own, op.x), live |-> op.live]}

Exec(s, op) ==
    CASE op.o = "make"   -> Make(s, op)
      [] op.o = "change" -> Change(s, op)
      [] op.o = "extend" -> Extend(s, op)
      [] op.o = "redo"   -> Redo(s, op)
      [] op.o = "ask"    -> Ask(s, op)
      [] op.o = "free"   -> Free(s, op)
      [] op.o = "end"    -> IF Objs(s) = {} /\ s.live = 0 /\ op.live = 0 THEN {s} ELSE {}
      [] OTHER -> {}
\* the property
NoLeak(s) == s.live = Sum(s.own)
AllBack(s) == Objs(s) = {} => s.live = 0
=============================================================================
