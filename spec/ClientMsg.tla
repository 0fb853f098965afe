----------------------------- MODULE ClientMsg -----------------------------
(* P08.  A client connection as a relay sees it: messages that are          *)
(* well-formed are understood exactly, everything else is refused and       *)
(* changes nothing.  State: the open subscriptions (id -> filters).         *)
EXTENDS EventJson, Filter
SubOk(b) == Len(b) \in 1..64 /\ AllIn(b, LAMBDA c : 32 <= c /\ c <= 126)
FilterOk(f) == SizesOk(f) /\ BadFields(f) = {}
MaxFilters == 10
Nothing(op) == op.type = "none" /\ ~op.hasEvent /\ op.got = <<>> /\ ~op.hasSub
Same(fs, gs) == Len(fs) = Len(gs) /\ \A i \in 1..Len(fs) : SameFilter(fs[i], gs[i])
SubsOk(src) == SubOk(src.sub) /\ Len(src.filters) <= MaxFilters /\ \A i \in 1..Len(src.filters) : FilterOk(src.filters[i])
Open(s, sub, fs) == [x \in DOMAIN s \cup {sub} |-> IF x = sub THEN fs ELSE s[x]]
CExec(s, op) ==
    CASE op.o \in {"EVENT", "AUTH"} ->
            IF WellFormed(op.src)
            THEN IF op.r = 0 /\ op.type = op.o /\ Denotes(op.src, op.ev) /\ ~op.hasSub /\ op.got = <<>> THEN {s} ELSE {}
            ELSE IF op.r # 0 /\ Nothing(op) THEN {s} ELSE {}
      [] op.o \in {"REQ", "COUNT"} ->
            IF SubsOk(op.src)
            THEN IF op.r = 0 /\ op.type = op.o /\ op.sub = op.src.sub /\ Same(op.src.filters, op.got) /\ ~op.hasEvent
                 THEN {IF op.o = "REQ" THEN Open(s, op.src.sub, op.src.filters) ELSE s} ELSE {}
            ELSE IF op.r # 0 /\ Nothing(op) THEN {s} ELSE {}
      [] op.o = "CLOSE" ->
            IF SubOk(op.src.sub)
            THEN IF op.r = 0 /\ op.type = "CLOSE" /\ op.sub = op.src.sub /\ ~op.hasEvent /\ op.got = <<>>
                 THEN {[x \in DOMAIN s \ {op.src.sub} |-> s[x]]} ELSE {}
            ELSE IF op.r # 0 /\ Nothing(op) THEN {s} ELSE {}
      [] op.o = "bad" -> IF op.r # 0 /\ Nothing(op) THEN {s} ELSE {}
         \* the subscriptions the harness holds after acting on the library's answers
      [] op.o = "open" -> IF {op.subs[i] : i \in 1..Len(op.subs)} = DOMAIN s THEN {s} ELSE {}
         \* an allocation failed during parsing: understood exactly or refused
      [] op.o = "oom" -> IF op.r # 0 THEN (IF Nothing(op) THEN {s} ELSE {})
                         ELSE IF op.type = op.src.o /\ (op.src.o = "REQ" => op.sub = op.src.sub /\ Same(op.src.filters, op.got))
                                 /\ (op.src.o = "EVENT" => Denotes(op.src.ev, op.ev)) THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
