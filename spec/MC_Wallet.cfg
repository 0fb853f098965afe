INIT Init
NEXT Next
CONSTANT Depth = 5
INVARIANTS Tree Decided Spelled
CHECK_DEADLOCK FALSE
