INIT Init
NEXT Next
CONSTANT Depth = 4
INVARIANTS OwnOnly
VIEW View
CHECK_DEADLOCK FALSE
