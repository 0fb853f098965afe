-------------------------------- MODULE Keys --------------------------------
(* P21.  Key pairs.  State: a few key pair objects, each [init, sk, pk].     *)
(* op.curve: the public key that belongs to the secret key at hand, from an  *)
(* independent implementation (only used when the secret key is valid).      *)
EXTENDS Bytes
\* the group order
N == <<255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,186,174,220,230,175,72,160,59,191,210,94,140,208,54,65,65>>
Zero32 == [i \in 1..32 |-> 0]
Less(a, b) == \E i \in 1..32 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Valid(k) == Len(k) = 32 /\ k # Zero32 /\ Less(k, N)
HexKey(t) == Len(t) = 64 /\ AllIn(t, IsHex)
Slot(i, sk, pk) == [init |-> i, sk |-> sk, pk |-> pk]
Empty == Slot(FALSE, <<>>, <<>>)
Slots == 3
Init0 == [i \in 1..Slots |-> Empty]
Put(s, i, x) == [s EXCEPT ![i] = x]
\* a failure leaves the key pair as it was or unusable, never half-made
Failed(s, i) == {Put(s, i, Empty)}
Untouched(s, i) == {s, Put(s, i, Empty)}
Load(s, op, k) == IF op.r = 0 THEN (IF Valid(k) THEN {Put(s, op.i, Slot(TRUE, k, op.curve))} ELSE {}) ELSE IF ~Valid(k) THEN Failed(s, op.i) ELSE {}
Exec(s, op) ==
    CASE op.o = "init" -> IF op.r = 0 THEN {Put(s, op.i, Empty)} ELSE {}
         \* rng: "ok" works, "dead" every draw fails, "bad" only invalid secret keys, "late" an invalid one first
      [] op.o = "generate" -> IF op.r = 0 THEN (IF op.rng \in {"ok", "late"} /\ Valid(op.sk) /\ op.pk = op.curve /\ op.fresh THEN {Put(s, op.i, Slot(TRUE, op.sk, op.pk))} ELSE {})
                              ELSE IF op.rng \in {"dead", "bad"} THEN Failed(s, op.i) ELSE {}
      [] op.o = "fromhex" -> IF ~HexKey(op.text) THEN (IF op.r # 0 THEN Untouched(s, op.i) ELSE {}) ELSE Load(s, op, UnHex(op.text))
      [] op.o = "fromkey" -> Load(s, op, op.key)
      [] op.o = "export" -> LET x == s[op.i] IN
            IF op.r = 0 THEN (IF x.init /\ op.size >= 65 /\ op.text = HexOf(IF op.private THEN x.sk ELSE x.pk) THEN {s} ELSE {})
            ELSE IF ~x.init \/ op.size < 65 THEN {s} ELSE {}
      [] op.o = "access" -> LET x == s[op.i] IN
            IF (x.init /\ op.sk = <<x.sk>> /\ op.pk = <<x.pk>>) \/ (~x.init /\ op.sk = <<>> /\ op.pk = <<>>) THEN {s} ELSE {}
      [] op.o = "validate" -> LET x == s[op.i] IN IF (op.r = 0) <=> (x.init /\ Valid(x.sk) /\ x.pk = op.curve) THEN {s} ELSE {}
         \* the harness overwrites the stored parts, as a fault would
      [] op.o = "overwrite" -> IF s[op.i].init THEN {Put(s, op.i, Slot(TRUE, IF op.private THEN op.key ELSE s[op.i].sk, IF op.private THEN s[op.i].pk ELSE op.key))} ELSE {}
      [] op.o = "destroy" -> IF op.wiped THEN {Put(s, op.i, Empty)} ELSE {}
         \* plain keys and hex
      [] op.o = "hexkey" -> IF op.r = 0 THEN (IF HexKey(op.text) /\ op.key = UnHex(op.text) THEN {s} ELSE {}) ELSE IF ~HexKey(op.text) THEN {s} ELSE {}
      [] op.o = "keyhex" -> IF op.r = 0 THEN (IF op.size >= 65 /\ op.text = HexOf(op.key) THEN {s} ELSE {}) ELSE IF op.size < 65 THEN {s} ELSE {}
      [] op.o = "random" -> IF (op.r = 1) <=> (op.rng = "ok") THEN (IF op.r = 1 => op.filled THEN {s} ELSE {}) ELSE {}
      [] OTHER -> {}
=============================================================================
