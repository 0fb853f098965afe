INIT Init
NEXT Next
CONSTANT Depth = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
