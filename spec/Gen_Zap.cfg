INIT Init
NEXT Next
CONSTANT Depth = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
