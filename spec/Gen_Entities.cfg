INIT Init
NEXT Next
CONSTANT Mode = "gen"
CONSTANT Depth = 3
CHECK_DEADLOCK FALSE
INVARIANTS Emit
