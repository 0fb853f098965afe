--------------------------- MODULE MC_Threads ---------------------------
EXTENDS Threads, Json, IOUtils, CSV
CONSTANTS Depth
VARIABLES s, h
Tags == {<<"e", "1">>, <<"e", "2", "wss://r">>, <<"e", "3", "", "root">>, <<"e", "4", "wss://s", "reply", "pk">>, <<"e", "5", "", "mention">>, <<"e">>, <<"p", "6">>, <<"e", "7", "", "x">>}
Answers == [o : {"answer"}, root : {NULL, "8"}, reply : {NULL, "9"}, rrelay : {NULL, "wss://r"}, prelay : {NULL}, rpk : {NULL, "k"}, ppk : {NULL}]
Init == s = <<>> /\ h = <<>>
Step(op) == \E t \in Exec(s, op) : s' = t /\ h' = Append(h, op)
Next == Len(h) < Depth /\ ((\E t \in Tags : Step([o |-> "tag", t |-> t, r |-> 0])) \/ (\E a \in Answers : Step([a EXCEPT !.o = "answer"] @@ [r |-> IF a.root = NULL /\ a.reply = NULL THEN 11 ELSE 0]))
         \/ Step([o |-> "mention", pk |-> "6", relay |-> NULL, r |-> 0]))
Last1(x) == x[Len(x)]
\* what was answered is what is read back, when it is the first answer
ReadBack == (Len(h) > 0 /\ Last1(h).o = "answer" /\ Last1(h).r = 0 /\ \A i \in 1..(Len(h)-1) : h[i].o = "mention") =>
    /\ (Last1(h).root # NULL => \A t \in Roots(s) : t # NotFound /\ t[2] = Last1(h).root)
    /\ (Last1(h).reply # NULL => \A t \in Replies(s) : t # NotFound /\ t[2] = Last1(h).reply)
    /\ NotFound \notin Replies(s)
\* an e tag makes it a reply to something
Threaded == (ETags(s) # <<>>) => NotFound \notin Replies(s)
Unambiguous == (\A i \in 1..Len(s) : Mark(s[i]) \in {"root", "reply"} \/ s[i][1] # "e") /\ Marked(ETags(s), "root") # <<>> /\ Marked(ETags(s), "reply") # <<>> => Cardinality(Roots(s)) = 1 /\ Cardinality(Replies(s)) = 1
View == <<s, IF h = <<>> THEN <<>> ELSE <<Last1(h)>>, Len(h)>>
Emit == (Len(h) = Depth) => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.GEN)
=============================================================================
