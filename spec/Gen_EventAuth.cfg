INIT Init
NEXT GNext
CONSTANT Depth = 10
INVARIANT Emit
CHECK_DEADLOCK FALSE
