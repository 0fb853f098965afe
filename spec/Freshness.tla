------------------------------ MODULE Freshness ------------------------------
(* P12.  Events in time.  State: the clock and the events a relay holds     *)
(* (their time, tags, and whether id and signature are genuine).            *)
EXTENDS Bytes
ExpName == <<101, 120, 112, 105, 114, 97, 116, 105, 111, 110>>
Values(tags) == LET m == SelectSeq(tags, LAMBDA t : Len(t) >= 2 /\ t[1] = ExpName) IN [i \in 1..Len(m) |-> m[i][2]]
Zero == SmallNum(0)
\* the time an expiration value denotes; a text that is not a plain decimal number is no expiration.
\* Forms a lenient reader may take as numbers (blanks, a plus sign, too large) may also be refused.
RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ Head(s) \in {9, 10, 11, 12, 13, 32} THEN Trim(Tail(s)) ELSE s
Loose(s) == LET t == Trim(s) IN IF t # <<>> /\ Head(t) = 43 THEN Tail(t) ELSE t
Denoted(v) == IF IsNumeral(v) THEN (IF NumLeq(NumeralVal(v), I64Max) THEN {NumeralVal(v)} ELSE {Zero, I64Max})
              ELSE IF IsNumeral(Loose(v)) THEN {Zero, IF NumLeq(NumeralVal(Loose(v)), I64Max) THEN NumeralVal(Loose(v)) ELSE I64Max}
              ELSE {Zero}
Expiration(e) == IF Values(e.tags) = <<>> THEN {Zero} ELSE Denoted(Values(e.tags)[1])
Expired(e, now) == {~NumZero(x) /\ NumLess(x, now) : x \in Expiration(e)}
InTime(at, now, max) == NumLeq(at, NumAdd(now, max))
Future == 12
ExpiredErr == 13
IdErr == 10
SigErr == 11
Wrong(e, now, max, exp) == (IF InTime(e.at, now, max) THEN {} ELSE {Future}) \cup (IF exp THEN {ExpiredErr} ELSE {})
                           \cup (IF e.id THEN {} ELSE {IdErr, SigErr}) \cup (IF e.sig THEN {} ELSE {SigErr})
Init0 == [now |-> Zero, evs |-> <<>>]
Exec(s, op) ==
    CASE op.o = "clock" -> {[s EXCEPT !.now = op.now]}
      [] op.o = "event" -> {[s EXCEPT !.evs = Append(s.evs, op.e)]}
      [] op.o = "ts" -> IF op.r = InTime(op.at, s.now, op.max) THEN {s} ELSE {}
      [] op.o = "exp" -> IF op.r \in Expiration(s.evs[op.i]) THEN {s} ELSE {}
      [] op.o = "expired" -> IF op.r \in Expired(s.evs[op.i], op.now) THEN {s} ELSE {}
      [] op.o = "expirednow" -> IF op.r \in Expired(s.evs[op.i], s.now) THEN {s} ELSE {}
      [] op.o = "full" -> IF \E x \in Expired(s.evs[op.i], s.now) : LET w == Wrong(s.evs[op.i], s.now, op.max, x) IN
                                /\ (op.r = 0) = (w = {}) /\ op.valid = (w = {}) /\ op.code = op.r
                                /\ w # {} => op.r \in w
                          THEN {s} ELSE {}
      [] op.o = "now" -> IF op.r = s.now THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
