INIT Init
NEXT Next
CONSTANT Depth = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
