------------------------------- MODULE Wallet -------------------------------
(* P25.  Hierarchical keys and recovery phrases (BIP-32, BIP-39, NIP-06).    *)
(* State: the derivation steps observed so far.  A node is [sk, pk, cc]; the *)
(* hash and curve arithmetic of one step is an oracle, how steps compose,    *)
(* what a path, a phrase and an account mean is specified here.              *)
EXTENDS Bytes
NoNode == <<>>
\* ---- paths: m, or m/ and child numbers, each with an optional mark for hardened
Slash == 47
Marked(t) == t # <<>> /\ t[Len(t)] \in {39, 104}
Number(t) == IF Marked(t) THEN SubSeq(t, 1, Len(t) - 1) ELSE t
TwoTo31 == [neg |-> FALSE, d |-> <<2,1,4,7,4,8,3,6,4,8>>]
TokenOk(t) == IsNumeral(Number(t)) /\ NumLess(NumeralVal(Number(t)), TwoTo31)
ValOfDigits(d) == FoldLeft(LAMBDA a, x : a * 10 + x, 0, d)
\* the four bytes of the child number
Index(t) == LET v == ValOfDigits(NumeralVal(Number(t)).d) IN <<(v \div 16777216) + (IF Marked(t) THEN 128 ELSE 0), (v \div 65536) % 256, (v \div 256) % 256, v % 256>>
Tokens(p) == IF Len(p) <= 1 THEN <<>> ELSE Split(SubSeq(p, 3, Len(p)), Slash)
PathHead(p) == Len(p) >= 1 /\ p[1] = 109 /\ (Len(p) = 1 \/ p[2] = Slash)
Named(p) == SelectSeq(Tokens(p), LAMBDA t : t # <<>>)
PathOk(p) == PathHead(p) /\ AllIn(Named(p), TokenOk)
\* empty components: a reader may skip or refuse them; likewise a capital H as the mark
Sloppy(p) == PathHead(p) /\ \E i \in 1..Len(Tokens(p)) : Tokens(p)[i] = <<>>
Route(p) == TLCEval([i \in 1..Len(Named(p)) |-> Index(Named(p)[i])])
\* ---- steps: a sequence of [i, c] from a start; c is the node the oracle gives, NoNode if there is none
RECURSIVE Follow(_, _)
Follow(start, steps) == IF steps = <<>> THEN start ELSE IF steps[1].c = NoNode THEN NoNode ELSE Follow(steps[1].c, Tail(steps))
Indices(steps) == [k \in 1..Len(steps) |-> steps[k].i]
RECURSIVE Facts(_, _)
Facts(start, steps) == IF steps = <<>> \/ start = NoNode THEN {} ELSE {[p |-> start, i |-> steps[1].i, c |-> steps[1].c]} \cup Facts(steps[1].c, Tail(steps))
\* the oracle answered for the whole route, or up to where no node exists
Covers(steps, route) == LET x == Indices(steps) IN x = SubSeq(route, 1, Len(x)) /\ (Len(x) = Len(route) \/ (Len(x) > 0 /\ steps[Len(x)].c = NoNode))
Functional(s) == \A x, y \in s : x.p = y.p /\ x.i = y.i => x.c = y.c
\* ---- phrases: op.words are the indices of the words in the list (2048: not in it)
BitsOf(ws) == [k \in 1..(11 * Len(ws)) |-> (ws[((k - 1) \div 11) + 1] \div (2 ^ (10 - ((k - 1) % 11)))) % 2]
Octet(b, k) == FoldLeft(LAMBDA a, x : a * 2 + x, 0, SubSeq(b, k, k + 7))
EntropyOf(ws) == LET b == TLCEval(BitsOf(ws)) n == (Len(ws) * 4) \div 3 IN TLCEval([k \in 1..n |-> Octet(b, 8 * k - 7)])
CheckOf(ws) == ws[Len(ws)] % (IF Len(ws) = 12 THEN 16 ELSE 256)
Checks(ws, h0) == CheckOf(ws) = (IF Len(ws) = 12 THEN h0 \div 16 ELSE h0)
\* op.ent, op.h0: entropy and the first byte of its hash, by the oracle
PhraseOk(op) == Len(op.words) \in {12, 24} /\ AllIn(op.words, LAMBDA w : w < 2048) /\ op.ent = EntropyOf(op.words) /\ Checks(op.words, op.h0)
\* ---- NIP-06
Hard(n) == <<128 + n[1], n[2], n[3], n[4]>>
Nip06(acct) == <<<<128, 0, 0, 44>>, <<128, 0, 4, 213>>, Hard(acct), <<0, 0, 0, 0>>, <<0, 0, 0, 0>>>>
Exec(s, op) ==
    CASE op.o = "master" -> IF op.r = 0 THEN (IF Len(op.seed) \in 16..64 /\ op.ref # NoNode /\ op.node = op.ref THEN {s} ELSE {})
                            ELSE IF Len(op.seed) \notin 16..64 \/ op.ref = NoNode THEN {s} ELSE {}
         \* a single step; op.ref by the oracle
      [] op.o = "child" -> LET t == s \cup {[p |-> op.p, i |-> op.i, c |-> op.ref]} IN
            IF ~Functional(t) THEN {} ELSE IF op.r = 0 THEN (IF op.ref # NoNode /\ op.node = op.ref THEN {t} ELSE {}) ELSE IF op.ref = NoNode THEN {t} ELSE {}
      [] op.o = "path" ->
            IF ~PathOk(op.path) THEN (IF op.r # 0 THEN {s} ELSE {})
            ELSE IF ~Covers(op.steps, Route(op.path)) THEN {}
            ELSE LET n == Follow(op.p, op.steps) t == s \cup Facts(op.p, op.steps) IN
                 IF ~Functional(t) THEN {}
                 ELSE IF op.r = 0 THEN (IF n # NoNode /\ op.node = n THEN {t} ELSE {}) ELSE IF n = NoNode \/ op.oom \/ Sloppy(op.path) THEN {t} ELSE {}
      [] op.o = "pair" -> IF op.r = 0 /\ op.sk = op.p.sk /\ op.pk = op.p.pk /\ op.usable THEN {s} ELSE {}
      [] op.o = "phrase" -> IF (op.r = 0 /\ PhraseOk(op)) \/ (op.r # 0 /\ (~PhraseOk(op) \/ op.oom)) THEN {s} ELSE {}
         \* want: the entropy that the random source gave, when it is known
      [] op.o = "generate" ->
            IF op.r = 0 THEN (IF op.n \in {12, 24} /\ op.rng # "dead" /\ Len(op.words) = op.n /\ PhraseOk(op) /\ op.size > op.len /\ (op.rng = "known" => op.ent = op.want) /\ op.fresh THEN {s} ELSE {})
            ELSE IF op.n \notin {12, 24} \/ op.rng = "dead" \/ op.size <= op.len \/ op.size < 220 THEN {s} ELSE {}
         \* refs: the seeds BIP-39 assigns to the phrase as written, or with its blanks tidied
      [] op.o = "seed" -> IF (op.r = 0 /\ PhraseOk(op) /\ op.passok /\ op.seed \in {op.refs[k] : k \in 1..Len(op.refs)}) \/ (op.r # 0 /\ (~PhraseOk(op) \/ ~op.passok \/ op.oom)) THEN {s} ELSE {}
         \* acct: four bytes; each alternative starts from the master of one of the seeds
      [] op.o = "account" ->
            IF op.r # 0 THEN (IF ~PhraseOk(op) \/ ~op.passok \/ op.acct[1] >= 128 \/ op.oom \/ (\E k \in 1..Len(op.alts) : Follow(op.alts[k].p, op.alts[k].steps) = NoNode) THEN {s} ELSE {})
            ELSE IF PhraseOk(op) /\ op.passok /\ op.acct[1] < 128 /\ op.usable
                    /\ \E k \in 1..Len(op.alts) : Covers(op.alts[k].steps, Nip06(op.acct)) /\ (LET n == Follow(op.alts[k].p, op.alts[k].steps) IN n # NoNode /\ n.sk = op.sk /\ n.pk = op.pk)
                 THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
