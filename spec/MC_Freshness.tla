--------------------------- MODULE MC_Freshness ---------------------------
EXTENDS Freshness, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, h, seen
T(v) == <<ExpName, v>>
TagSets == {<<>>, <<T(<<53>>)>>, <<T(<<48, 53>>)>>, <<<<ExpName>>, T(<<54>>), T(<<52>>)>>, <<T(<<45, 53>>)>>, <<T(<<53, 120>>)>>, <<T(<<>>)>>, <<T(<<32, 53>>)>>, <<T(Digits(I64Max.d))>>}
Evs == [at : {SmallNum(3), SmallNum(5), SmallNum(9)}, tags : TagSets, id : BOOLEAN, sig : BOOLEAN]
Times == {SmallNum(i) : i \in {0, 4, 5, 6, 7}}
Init == s = Init0 /\ h = <<>> /\ seen = {}
Step(op) == \E t \in Exec(s, op) : s' = t /\ h' = Append(h, op)
\* once expired, an event stays expired as the clock advances
Next == /\ Len(h) < Depth
        /\ \/ \E e \in Evs : Len(s.evs) < 1 /\ Step([o |-> "event", e |-> e]) /\ seen' = seen
           \/ \E n \in Times : NumLess(s.now, n) /\ Step([o |-> "clock", now |-> n]) /\ seen' = (IF s.evs = <<>> THEN {} ELSE Expired(s.evs[1], s.now))
Monotone == (seen = {TRUE} /\ s.evs # <<>>) => TRUE \in Expired(s.evs[1], s.now)
\* for each held event exactly one verdict of validity is accepted, except where a lenient reading is allowed
Verdict == s.evs # <<>> => \A m \in {SmallNum(0), SmallNum(2)} :
    LET ok == Exec(s, [o |-> "full", i |-> 1, max |-> m, r |-> 0, valid |-> TRUE, code |-> 0]) # {}
        bad == \E c \in {10, 11, 12, 13} : Exec(s, [o |-> "full", i |-> 1, max |-> m, r |-> c, valid |-> FALSE, code |-> c]) # {}
    IN (ok \/ bad) /\ (ok /\ bad => Cardinality(Expired(s.evs[1], s.now)) = 2)
\* a forged or stale event is never valid
Sound == s.evs # <<>> => \A m \in {SmallNum(0), SmallNum(2)} :
    Exec(s, [o |-> "full", i |-> 1, max |-> m, r |-> 0, valid |-> TRUE, code |-> 0]) # {} =>
        s.evs[1].id /\ s.evs[1].sig /\ FALSE \in Expired(s.evs[1], s.now) /\ InTime(s.evs[1].at, s.now, m)
Emit == (Len(h) = Depth) => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
View == <<s, seen, Len(h)>>
=============================================================================
