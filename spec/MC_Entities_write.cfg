INIT Init
NEXT Next
CONSTANT Mode = "write"
CONSTANT Depth = 2
CHECK_DEADLOCK FALSE
INVARIANTS Stable
