INIT Init
NEXT GenNext
CONSTANT Depth = 4
INVARIANTS Emit
CHECK_DEADLOCK FALSE
