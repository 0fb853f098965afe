INIT Init
NEXT Next
CONSTANT Depth = 4
INVARIANTS Sound Unusable Vouched
VIEW View
CHECK_DEADLOCK FALSE
