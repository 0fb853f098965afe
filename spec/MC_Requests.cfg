INIT Init
NEXT Next
CONSTANT Depth = 6
INVARIANTS Authentic Exact Keys
VIEW View
CHECK_DEADLOCK FALSE
