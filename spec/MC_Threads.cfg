INIT Init
NEXT Next
CONSTANT Depth = 4
INVARIANTS ReadBack Threaded Unambiguous
VIEW View
CHECK_DEADLOCK FALSE
