INIT Init
NEXT Next
CONSTANT Depth = 1
INVARIANTS Paid Decided
VIEW View
CHECK_DEADLOCK FALSE
