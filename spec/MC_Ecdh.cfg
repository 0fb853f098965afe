INIT Init
NEXT Next
CONSTANT Depth = 4
INVARIANTS Agreement
VIEW View
CHECK_DEADLOCK FALSE
