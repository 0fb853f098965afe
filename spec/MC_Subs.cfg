INIT Init
NEXT Next
CONSTANT Depth = 6
INVARIANTS Explained Exact Nothing
VIEW View
CHECK_DEADLOCK FALSE
