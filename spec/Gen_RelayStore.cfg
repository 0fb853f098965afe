INIT Init
NEXT Next
CONSTANT Depth = 16
INVARIANT Emit
CHECK_DEADLOCK FALSE
