INIT Init
NEXT Next
CONSTANT Depth = 20
INVARIANT Convergent
VIEW View
CHECK_DEADLOCK FALSE
