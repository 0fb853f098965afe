------------------------------ MODULE MC_Heap ------------------------------
(* A library whose calls take several allocations each, any of which can fail, and that cleans up after itself; *)
(* the machine's calls are steps of Exec, and at every moment all blocks belong to an object or a running call.  *)
EXTENDS Heap, Json, IOUtils, CSV
CONSTANTS Depth, Slots, MaxAlloc
VARIABLES s, run, h
\* run: the call in progress: kind, object, allocations done so far, needed, failures
Idle == [k |-> "idle", x |-> "", n |-> 0, need |-> 0, inj |-> 0, bad |-> FALSE]
Init == s = Start /\ run = Idle /\ h = <<>>
Zero == [core |-> 0, rest |-> 0, tags |-> <<>>]
Val(x) == IF x \in Objs(s) THEN s.val[x] ELSE Zero
\* what a call of each kind makes of a value, done and half done
New(k, v) == CASE k = "ask" -> Zero [] k = "redo" -> [v EXCEPT !.rest = @ + 1] [] k = "extend" -> [v EXCEPT !.tags = @ \o <<v.rest, v.core>>] [] OTHER -> [v EXCEPT !.core = @ + 1, !.rest = @ + 1]
Half(k, v, p) == IF ~p THEN v ELSE CASE k = "redo" -> [v EXCEPT !.rest = @ + 1] [] k = "extend" -> [v EXCEPT !.tags = Append(@, v.rest)] [] OTHER -> v
Begin == /\ run = Idle /\ Len(h) < Depth
         /\ \E x \in Slots, k \in {"make", "change", "redo", "extend", "ask", "free"}, need \in 0..MaxAlloc, bad \in BOOLEAN, at \in 0..MaxAlloc :
              /\ (k = "make") = (x \notin Objs(s))
              /\ at <= need /\ (k = "free" => need = 0 /\ ~bad)
              /\ run' = [k |-> k, x |-> x, n |-> 0, need |-> need, inj |-> 0, bad |-> bad]
              /\ h' = Append(h, [k |-> k, x |-> x, bad |-> bad, at |-> at])
         /\ UNCHANGED s
Alloc == /\ run.k \notin {"idle", "free"} /\ run.n < run.need /\ run.inj = 0
         /\ run' = IF h[Len(h)].at = run.n + 1 THEN [run EXCEPT !.inj = 1] ELSE [run EXCEPT !.n = @ + 1]
         /\ UNCHANGED <<s, h>>
Done == run.k # "idle" /\ (run.k = "free" \/ run.inj > 0 \/ run.n = run.need)
Fin == /\ Done
       /\ \E part \in BOOLEAN : LET fails == run.inj > 0 \/ run.bad
              w == [ok |-> ~run.bad, val |-> New(run.k, Val(run.x))]
              base == [o |-> run.k, x |-> run.x, ok |-> ~fails, want |-> w, inj |-> run.inj, left |-> FALSE, vals |-> s.val,
                       val |-> IF fails /\ run.k \in {"change", "redo", "extend"} THEN Half(run.k, Val(run.x), part) ELSE w.val,
                       live |-> IF run.k = "free" THEN s.live - s.own[run.x] ELSE IF fails \/ run.k = "ask" THEN s.live ELSE s.live + run.n]
          IN s' \in Exec(s, base)
       /\ run' = Idle /\ UNCHANGED h
Next == Begin \/ Alloc \/ Fin
Safe == NoLeak(s) /\ AllBack(s)
\* a finished call is always explained: the machine never refuses it
Explained == Done => ENABLED Fin
Emit == (Len(h) = Depth /\ run = Idle) => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
Bound == \A x \in Objs(s) : s.val[x].rest < 4 /\ Len(s.val[x].tags) < 4
View == <<s, run, Len(h)>>
=============================================================================
