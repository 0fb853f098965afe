INIT Init
NEXT Next
CONSTANT Depth = 10
INVARIANT Emit
CHECK_DEADLOCK FALSE
