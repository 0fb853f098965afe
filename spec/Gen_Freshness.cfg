INIT Init
NEXT Next
CONSTANT Depth = 4
INVARIANT Emit
VIEW View
CHECK_DEADLOCK FALSE
