INIT Init
NEXT Next
CONSTANT Depth = 2
INVARIANTS Decided OpenOk
VIEW View
CHECK_DEADLOCK FALSE
