INIT Init
NEXT Next
CONSTANT Depth = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
