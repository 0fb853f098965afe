INIT Init
NEXT Next
CONSTANT Depth = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
