INIT Init
NEXT Next
CONSTANT Depth = 6
INVARIANTS TypeOk Answered
PROPERTY Chained
VIEW View
CHECK_DEADLOCK FALSE
