INIT Init
NEXT Next
CONSTANT Depth = 4
INVARIANTS Honest Truncating
VIEW View
CHECK_DEADLOCK FALSE
