----------------------------- MODULE RelayStore -----------------------------
(* P05.  What a relay keeps: classification of kinds, the order on          *)
(* replaceable events, and a store that keeps the newest event per author   *)
(* and kind (and d value).  State: the set of stored events.                *)
EXTENDS Bytes
\* the classification as a function of the kind (any 32-bit integer)
KindType(k) == IF 20000 <= k /\ k < 30000 THEN "ephemeral"
               ELSE IF 30000 <= k /\ k < 40000 THEN "addressable"
               ELSE IF k = 0 \/ k = 3 \/ (10000 <= k /\ k < 20000) THEN "replaceable"
               ELSE "regular"
\* points at which the classification can change
Breaks == {0, 1, 3, 4, 10000, 20000, 30000, 40000}
RunOk(run) == /\ KindType(run.lo) = run.t
              /\ \A b \in Breaks : (run.lo < b /\ b <= run.hi) => KindType(b) = run.t

\* byte strings in lexicographic order
LexLess(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
\* a replaceable event supersedes another: later, or equally late with the lower id
Newer(a, b) == NumLess(b.at, a.at) \/ (a.at = b.at /\ LexLess(a.id, b.id))
Cmp(a, b) == IF Newer(a, b) THEN 1 ELSE IF Newer(b, a) THEN 0 - 1 ELSE 0

DValue(ev) == LET m == SelectSeq(ev.tags, LAMBDA t : Len(t) >= 2 /\ t[1] = "d") IN IF m = <<>> THEN "" ELSE m[1][2]
SameSlot(a, b) == LET t == KindType(a.kind) IN
    /\ a.author = b.author /\ a.kind = b.kind
    /\ t \in {"replaceable", "addressable"}
    /\ t = "addressable" => DValue(a) = DValue(b)
Store(s, ev) == IF KindType(ev.kind) = "ephemeral" THEN s
                ELSE LET rivals == {x \in s : SameSlot(x, ev)}
                     IN IF \E x \in rivals : ~Newer(ev, x) THEN s
                        ELSE (s \ rivals) \cup {ev}
Ids(s) == {x.id : x \in s}

Exec(s, op) ==
    CASE op.o = "kinds" -> IF \A i \in 1..Len(op.runs) : RunOk(op.runs[i]) THEN {s} ELSE {}
      [] op.o = "cmp" -> IF op.r = Cmp(op.a, op.b) /\ op.r2 = Cmp(op.b, op.a) THEN {s} ELSE {}
      [] op.o = "empty" -> {{}}
      [] op.o = "arrive" -> LET t == Store(s, op.ev) IN IF {op.ids[i] : i \in 1..Len(op.ids)} = Ids(t) THEN {t} ELSE {}
      [] OTHER -> {}
=============================================================================
