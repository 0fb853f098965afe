------------------------------- MODULE Vault -------------------------------
(* P24.  Secret keys under a password (NIP-49).  State: what was sealed so   *)
(* far: text, key, password; and the salts and nonces used.  The cipher and  *)
(* the password stretching are an oracle: op.open is what opening op.f under *)
(* op.pw yields (<<>>: does not open), f being the fields it was asked with. *)
EXTENDS Bech32
Prefix == <<110,99,114,121,112,116,115,101,99>>
Empty == [sealed |-> {}, used |-> {}]
FieldsOf(b) == [ver |-> b[1], logn |-> b[2], salt |-> SubSeq(b, 3, 18), nonce |-> SubSeq(b, 19, 42), sec |-> b[43], ct |-> SubSeq(b, 44, 75), mac |-> SubSeq(b, 76, 91)]
InOrder(f) == f.ver = 2 /\ f.logn \in 16..22 /\ f.sec \in 0..2
\* the readings of a text that are in order
Parsed(t) == {FieldsOf(d.bs) : d \in {x \in Readings(t) : x.ok /\ x.h = Prefix /\ Len(x.bs) = 91}}
Proper(t) == {f \in Parsed(t) : InOrder(f)}
Exec(s, op) ==
    CASE op.o = "seal" -> LET can == op.pw # <<>> /\ op.logn \in 16..22 /\ op.size >= 163 IN
            IF op.r # 0 THEN (IF ~can \/ op.rng # "ok" \/ op.oom THEN {s} ELSE {})
            ELSE IF ~can \/ op.rng = "dead" \/ Len(op.t) # 162 \/ HasUpper(op.t) THEN {}
            ELSE {[sealed |-> s.sealed \cup {[t |-> op.t, key |-> op.key, pw |-> op.pw]}, used |-> s.used \cup {f.salt, f.nonce}] :
                    f \in {g \in Proper(op.t) : g = op.f /\ g.logn = op.logn /\ op.open = <<op.key>> /\ (op.rng = "ok" => g.salt \notin s.used /\ g.nonce \notin s.used)}}
         \* kept: the caller's key buffer is as it was, or zero
      [] op.o = "unseal" ->
            IF op.r = 0 THEN (IF op.pw # <<>> /\ op.f \in Proper(op.t) /\ op.open = <<op.key>> /\ (\A x \in s.sealed : x.t = op.t => x.pw = op.pw /\ x.key = op.key) THEN {s} ELSE {})
            ELSE IF op.kept /\ (op.pw = <<>> \/ op.oom \/ Proper(op.t) = {} \/ HasUpper(op.t) \/ (op.f \in Proper(op.t) /\ op.open = <<>>)) THEN {s} ELSE {}
      [] op.o = "check" -> IF (op.r = 0 /\ Proper(op.t) # {}) \/ (op.r # 0 /\ (Proper(op.t) = {} \/ HasUpper(op.t) \/ op.oom)) THEN {s} ELSE {}
      [] OTHER -> {}
Unique(s) == \A x, y \in s.sealed : x.t = y.t => x = y
=============================================================================
