------------------------------ MODULE MC_Wallet ------------------------------
(* Paths over an abstract tree: a node is the route that leads to it.          *)
EXTENDS Wallet, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, path, n, done
Node(r) == [sk |-> r, pk |-> r, cc |-> r]
Alphabet == {<<47>>, <<48>>, <<49>>, <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>, <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, <<39>>, <<104>>, <<45>>, <<32>>}
RECURSIVE StepsFrom(_, _)
StepsFrom(r, rt) == IF rt = <<>> THEN <<>> ELSE <<[i |-> rt[1], c |-> IF rt[1] = <<0, 0, 0, 1>> /\ Len(r) = 2 THEN NoNode ELSE Node(Append(r, rt[1]))]>> \o (IF rt[1] = <<0, 0, 0, 1>> /\ Len(r) = 2 THEN <<>> ELSE StepsFrom(Append(r, rt[1]), Tail(rt)))
Init == s = {} /\ path = <<109>> /\ n = 0 /\ done = <<>>
Try(p) == LET ok == PathOk(p) st == IF ok THEN StepsFrom(<<>>, Route(p)) ELSE <<>> f == Follow(Node(<<>>), st) IN
          \E r \in {0, 1} : \E t \in Exec(s, [o |-> "path", p |-> Node(<<>>), path |-> p, steps |-> st, node |-> f, r |-> r, oom |-> FALSE]) : s' = t /\ done' = [p |-> p, r |-> r, ok |-> ok, sloppy |-> Sloppy(p), f |-> f]
Next == \/ n < Depth /\ n' = n + 1 /\ path' \in {path \o a : a \in Alphabet} /\ UNCHANGED <<s, done>>
        \/ done = <<>> /\ n > 0 /\ Try(path) /\ UNCHANGED <<path, n>>
Tree == Functional(s)
\* every path is decided, in one way unless it is sloppy
Decided == done # <<>> /\ ~done.sloppy => (done.r = 0) = (done.ok /\ done.f # NoNode)
\* a path leads to the node whose route it spells
Spelled == done # <<>> /\ done.r = 0 => done.f = Node(Route(done.p))
Emit == (n > 0 /\ done = <<>>) => CSVWrite("%1$s", <<ToJson([path |-> path])>>, IOEnv.GEN)
GenNext == n < Depth /\ n' = n + 1 /\ path' \in {path \o a : a \in Alphabet} /\ UNCHANGED <<s, done>>
=============================================================================
