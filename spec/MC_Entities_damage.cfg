INIT Init
NEXT Next
CONSTANT Mode = "damage"
CONSTANT Depth = 2
CHECK_DEADLOCK FALSE
INVARIANTS Detected Grouping
