---------------------------- MODULE MC_EventJson ----------------------------
(* Small-scope check: reading is a function that inverts printing: an event *)
(* denotes one source, a source denotes at most one event, and accepted     *)
(* sources always fit an event (kind in 0..65535, tags not empty).          *)
EXTENDS EventJson, Json, IOUtils, CSV
CONSTANT Chars
VARIABLES src, ev
Num1(neg, d, int) == [neg |-> neg, d |-> d, int |-> int]
Kinds == {Num1(FALSE, <<0>>, TRUE), Num1(FALSE, <<6,5,5,3,5>>, TRUE), Num1(FALSE, <<6,5,5,3,6>>, TRUE), Num1(TRUE, <<1>>, TRUE), Num1(FALSE, <<1>>, FALSE),
          Num1(FALSE, <<4,2,9,4,9,6,7,2,9,7>>, TRUE)}
Ats == {Num1(FALSE, <<0>>, TRUE), Num1(TRUE, <<1>>, TRUE), Num1(FALSE, <<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,2>>, TRUE), Num1(FALSE, <<1>>, FALSE)}
Str == {<<>>} \cup {<<a>> : a \in Chars} \cup {<<a, b>> : a, b \in Chars}
TagsS == {<<>>, <<<<<<>>>>>>, << <<(<<101>>), (<<34, 92>>)>> >>, << <<(<<92>>)>>, <<(<<>>), (<<10>>)>> >>}
Hex(n, c) == [i \in 1..2*n |-> c]
Srcs == [id : {Hex(32, 48)}, pubkey : {Hex(32, 102)}, sig : {Hex(64, 97)}, kind : Kinds, created_at : Ats, tags : TagsS, content : Str]
Of(x) == [id |-> Lower(x.id), pubkey |-> Lower(x.pubkey), sig |-> Lower(x.sig), kind |-> NumVal(x.kind), created_at |-> NumVal(x.created_at),
          tags |-> x.tags, content |-> x.content]
Init == src \in Srcs /\ ev = Of(src)
Next == UNCHANGED <<src, ev>>
Total == WellFormed(src) => Denotes(src, ev)
Sound == WellFormed(src) => ~ev.kind.neg /\ NumLeq(ev.kind, [neg |-> FALSE, d |-> <<6,5,5,3,5>>])
Emit == CSVWrite("%1$s", <<ToJson(<<[o |-> "src", src |-> [kind |-> src.kind, created_at |-> src.created_at, tags |-> src.tags, content |-> src.content]]>>)>>, IOEnv.GEN)
=============================================================================
