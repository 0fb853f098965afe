INIT Init
NEXT Next
CONSTANT Depth = 7
INVARIANT Emit
CHECK_DEADLOCK FALSE
