----------------------------- MODULE EventAuth -----------------------------
(* P01.  Authenticity of events.                                            *)
(*                                                                          *)
(* An event is a record of signed fields (pubkey, created_at, kind, tags,   *)
(* content) plus an id and a signature.  Cryptography is symbolic: the hash *)
(* is the injective constructor Hash(fields) and a signature is the term    *)
(* Sig(key, id).  A term may be tampered with by flipping bits; flipping    *)
(* the same bit twice restores it.                                          *)
(*                                                                          *)
(* Every operation is a record [o |-> name, args..., r |-> observed result] *)
(* and Exec(s, op) is the set of states the specification allows after it:  *)
(* empty when the observed result is not allowed.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NoTerm == [t |-> "none", flips |-> {}]
HashT(f) == [t |-> "hash", f |-> f, flips |-> {}]
SigT(k, id) == [t |-> "sig", k |-> k, id |-> id, flips |-> {}]
Flip(term, bit) == [term EXCEPT !.flips = IF bit \in @ THEN @ \ {bit} ELSE @ \cup {bit}]

\* pubkey: a record so that it can be tampered with too
PkT(k) == [t |-> "pk", k |-> k, flips |-> {}]
Fields(e) == [pk |-> e.pk, at |-> e.at, kind |-> e.kind, tags |-> e.tags, content |-> e.content]

Fresh(at) == [pk |-> NoTerm, at |-> at, kind |-> "0", tags |-> <<>>, content |-> "",
              id |-> NoTerm, sig |-> NoTerm]

\* the acceptance rule of event verification
Authentic(e) ==
    /\ e.id = HashT(Fields(e))
    /\ e.pk.t = "pk" /\ e.pk.flips = {}
    /\ e.sig = SigT(e.pk.k, e.id)

Signed(e, k) ==
    LET e1 == [e EXCEPT !.pk = PkT(k)]
        e2 == [e1 EXCEPT !.id = HashT(Fields(e1))]
    IN  [e2 EXCEPT !.sig = SigT(k, e2.id)]

\* s is a function from event names to events
Exec(s, op) ==
    CASE op.o = "create"  -> {(op.e :> Fresh(op.at)) @@ s}
      [] op.o = "set"     -> {[s EXCEPT ![op.e] = [@ EXCEPT ![op.f] = op.v]]}         \* at, kind, content
      [] op.o = "addtag"  -> IF op.r = 0 THEN {[s EXCEPT ![op.e].tags = Append(@, op.v)]} ELSE {}
      [] op.o = "edittag" -> {[s EXCEPT ![op.e].tags = op.v]}                         \* in-place edit of a value
      [] op.o = "flip"    -> {[s EXCEPT ![op.e] = [@ EXCEPT ![op.f] = Flip(@, op.bit)]]}   \* id, sig, pk
      [] op.o = "setpk"   -> {[s EXCEPT ![op.e].pk = PkT(op.k)]}
      [] op.o = "copy"    -> {[s EXCEPT ![op.e] = [@ EXCEPT ![op.f] = s[op.from][op.f]]]}  \* id, sig, pk, tags..
      [] op.o = "computeid" -> IF op.r = 0 THEN {[s EXCEPT ![op.e].id = HashT(Fields(s[op.e]))]} ELSE {}
      [] op.o = "sign"    -> IF op.r = 0 THEN {[s EXCEPT ![op.e] = Signed(s[op.e], op.k)]} ELSE {}
         \* signing with an unusable key, or with a failing random source, must report an error; whatever
         \* it did to the event, no new signature exists
      [] op.o = "signbad" -> IF op.r # 0 THEN {s} ELSE {}
      [] op.o = "signfail" ->
            IF op.r # 0
            THEN LET e1 == [s[op.e] EXCEPT !.pk = PkT(op.k)] IN
                 {s, [s EXCEPT ![op.e] = e1], [s EXCEPT ![op.e] = [e1 EXCEPT !.id = HashT(Fields(e1))]]}
            ELSE {}
      [] op.o = "verify"  -> IF op.r = Authentic(s[op.e]) THEN {s} ELSE {}
         \* relay-side validation agrees, and names the first failing part
      [] op.o = "validate" ->
            IF /\ op.r = Authentic(s[op.e])
               /\ (s[op.e].id # HashT(Fields(s[op.e])) => op.code \in {"ID_MISMATCH", "INVALID_ID"})
               /\ ((s[op.e].id = HashT(Fields(s[op.e])) /\ ~op.r) => op.code \in {"SIG_MISMATCH", "INVALID_SIG", "INVALID_PUBKEY"})
            THEN {s} ELSE {}
         \* serialise event e, parse it into event d: every field survives
      [] op.o = "json"    -> IF op.r = 0 THEN {(op.d :> s[op.e]) @@ s} ELSE {}
      [] OTHER -> {}
=============================================================================
