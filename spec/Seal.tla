-------------------------------- MODULE Seal --------------------------------
(* P31.  Sealed messages (NIP-44, and the older NIP-04).                      *)
(* State: the size limits in force, the nonces used so far, what was sealed   *)
(* so far by whom (pair of public keys, plaintext).  A text on the     *)
(* wire is known by what it is to the holders of the pair's secret: d.        *)
EXTENDS Bytes, Integers, FiniteSets
Init0 == [min |-> 1, max |-> 65535, nonces |-> {}, sealed |-> {}]
\* NIP-44 padding: the smallest power of two that holds n, cut into 8 (or pieces of 32)
RECURSIVE Pow2(_, _)
Pow2(p, n) == IF p >= n THEN p ELSE Pow2(2 * p, n)
Padded(n) == IF n <= 32 THEN 32 ELSE LET p == Pow2(64, n)
                                         c == IF p <= 256 THEN 32 ELSE p \div 8 IN c * ((n - 1) \div c + 1)
Fits(s, n) == n >= s.min /\ n <= s.max
Whole(d) == d.form = "b64" /\ d.ver = 2 /\ d.mac /\ d.hdr >= 1 /\ d.pad = 2 + Padded(d.hdr)
Foreign(d) == d.form = "hash" \/ (d.form = "b64" /\ d.size >= 99 /\ d.size <= 65603 /\ d.ver # 2)
Exec(s, op) ==
    CASE op.o = "limits" -> IF op.r = 0 THEN {[s EXCEPT !.min = op.min, !.max = op.max]} ELSE {}
      [] op.o = "restart" -> {s}
      [] op.o = "foreign44" -> {[s EXCEPT !.sealed = @ \cup {[p |-> {op.mine, op.theirs}, h |-> op.h]}]}   \* sealed by other software
      [] op.o = "seal44" ->
            IF op.r # 0 THEN (IF ~op.keys \/ ~Fits(s, op.n) \/ op.inj > 0 THEN {s} ELSE {})
            ELSE IF op.keys /\ ~op.norand /\ Fits(s, op.n) /\ Whole(op.d) /\ op.d.hdr = op.n /\ op.d.h = op.h /\ op.d.tail /\ op.d.nonce \notin s.nonces
                 THEN {[s EXCEPT !.nonces = @ \cup {op.d.nonce}, !.sealed = @ \cup {[p |-> {op.mine, op.theirs}, h |-> op.h]}]} ELSE {}
      [] op.o = "open44" ->
            LET good == op.keys /\ Whole(op.d) /\ op.d.hdr <= s.max IN
            IF op.r # 0 THEN (IF (good /\ op.d.tail /\ op.inj = 0) \/ op.left \/ (Foreign(op.d) /\ op.inj = 0 /\ op.r # 12) THEN {} ELSE {s})
            ELSE IF op.d.form = "text" THEN (IF op.keys /\ [p |-> {op.mine, op.theirs}, h |-> op.h] \in s.sealed THEN {s} ELSE {})
            ELSE IF good /\ op.h = op.d.h /\ op.n = op.d.hdr THEN {s} ELSE {}
      [] op.o = "seal04" ->
            IF op.r # 0 THEN (IF ~op.keys \/ op.inj > 0 THEN {s} ELSE {})
            ELSE IF op.keys /\ ~op.norand /\ op.d.strict /\ op.d.ok /\ op.d.h = op.h /\ op.d.n = op.n /\ op.d.nonce \notin s.nonces
                 THEN {[s EXCEPT !.nonces = @ \cup {op.d.nonce}]} ELSE {}
      [] op.o = "open04" ->
            IF op.r # 0 THEN (IF op.left \/ (op.keys /\ op.d.strict /\ op.d.ok /\ op.inj = 0) THEN {} ELSE {s})
            ELSE IF op.keys /\ (op.d.strict => op.d.ok /\ op.h = op.d.cut) THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
