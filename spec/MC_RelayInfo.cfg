INIT Init
NEXT Next
CONSTANT Depth = 3
INVARIANT Faithful
VIEW View
CHECK_DEADLOCK FALSE
