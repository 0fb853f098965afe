INIT Init
NEXT Next
CONSTANT Depth = 3
INVARIANTS Uniq Sound Complete
VIEW View
CHECK_DEADLOCK FALSE
