---- MODULE T_Codecs ----
\* Trace validation: S is the set of specification states that explain the trace so far.
EXTENDS Codecs, Json, IOUtils
VARIABLES tno, pos, S
Traces == ndJsonDeserialize(IOEnv.TRACE)
TInit == tno \in 1..Len(Traces) /\ pos = 0 /\ S = {Init0}
TNext == /\ pos < Len(Traces[tno].ops) /\ S # {}
         /\ pos' = pos + 1 /\ tno' = tno
         /\ S' = UNION {Exec(x, Traces[tno].ops[pos + 1]) : x \in S}
Accepted == S # {}
\* what an error trace prints: where it was rejected (the states of long traces are large)
Where == [tno |-> tno, pos |-> pos]
====
