-------------------------------- MODULE Ecdh --------------------------------
(* P22.  Shared secrets.  State: the secrets computed so far, by the         *)
(* unordered pair of public keys involved.                                   *)
EXTENDS Bytes
Recs(s, p) == {x \in s : x.p = p}
\* op.valid: both keys are valid (independent oracle); op.ref: the x coordinate of the shared point
Exec(s, op) ==
    CASE op.o = "ecdh" ->
            IF op.r # 0 THEN (IF ~op.valid THEN {s} ELSE {})
            ELSE IF ~op.valid \/ Len(op.z) # 32 THEN {}
            ELSE LET p == {op.mine, op.theirs} IN
                 IF op.z # op.ref \/ \E x \in Recs(s, p) : x.z # op.z THEN {} ELSE {s \cup {[p |-> p, z |-> op.z]}}
      [] OTHER -> {}
Agree(s) == \A x, y \in s : x.p = y.p => x.z = y.z
=============================================================================
