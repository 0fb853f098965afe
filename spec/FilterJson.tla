----------------------------- MODULE FilterJson -----------------------------
(* P07.  Filters as data.  State: the table of live filters (handle ->      *)
(* filter).  Parsing creates exactly the filter the JSON denotes, cloning   *)
(* an equal and independent one; freeing one leaves the others intact.      *)
EXTENDS Filter
Empty(f) == /\ \A k \in {"ids", "authors", "kinds", "e", "p", "g"} : f[k] = <<>>
            /\ NumZero(f.since) /\ NumZero(f.until) /\ f.limit = 0 /\ f.search = ""
Put(s, h, f) == [x \in DOMAIN s \cup {h} |-> IF x = h THEN f ELSE s[x]]
Acc(f, name) == CASE name = "ids" -> f.ids [] name = "authors" -> f.authors [] name = "kinds" -> f.kinds
                  [] name = "since" -> f.since [] name = "until" -> f.until [] name = "limit" -> f.limit [] name = "search" -> f.search
                  [] name = "has_search" -> f.search # ""
                  [] name = "e_tags" -> f.e [] name = "p_tags" -> f.p
                  [] name = "has_tag_filters" -> f.e # <<>> \/ f.p # <<>> \/ f.g # <<>>
TagAcc(f, n) == IF n = "e" THEN f.e ELSE IF n = "p" THEN f.p
                ELSE LET m == SelectSeq(f.g, LAMBDA x : x.n = n) IN IF m = <<>> THEN <<>> ELSE m[1].v
Exec(s, op) ==
    CASE op.o = "parse" -> IF SizesOk(op.src)
                           THEN IF op.r = 0 /\ SameFilter(op.src, op.f) THEN {Put(s, op.h, op.f)} ELSE {}
                           ELSE IF op.r # 0 /\ Empty(op.f) THEN {s} ELSE {}
      [] op.o = "garbage" -> IF op.r # 0 /\ Empty(op.f) THEN {s} ELSE {}
      [] op.o = "clone" -> IF op.r = 0 /\ op.f = s[op.h] THEN {Put(s, op.h2, op.f)} ELSE {}
         \* an allocation failed: a full clone or nothing
      [] op.o = "cloneoom" -> IF op.r = 0 THEN (IF op.f = s[op.h] THEN {Put(s, op.h2, op.f)} ELSE {})
                              ELSE IF Empty(op.f) THEN {s} ELSE {}
      [] op.o = "parseoom" -> IF op.r = 0 THEN (IF SameFilter(op.src, op.f) THEN {Put(s, op.h, op.f)} ELSE {})
                              ELSE IF Empty(op.f) THEN {s} ELSE {}
      [] op.o = "free" -> IF Empty(op.f) THEN {[x \in DOMAIN s \ {op.h} |-> s[x]]} ELSE {}
      [] op.o = "read" -> IF op.f = s[op.h] THEN {s} ELSE {}
      [] op.o = "acc" -> IF op.v = Acc(s[op.h], op.name) THEN {s} ELSE {}
      [] op.o = "tagacc" -> IF op.v = TagAcc(s[op.h], op.name) THEN {s} ELSE {}
      [] op.o = "validate" -> LET bad == BadFields(s[op.h]) IN
                              IF /\ (op.r = 0) = (bad = {}) /\ op.valid = (bad = {})
                                 /\ bad # {} => op.field \in bad
                              THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
