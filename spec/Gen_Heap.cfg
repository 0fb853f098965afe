INIT Init
NEXT Next
CONSTANTS Depth = 8
 Slots = {"a", "b", "c"}
 MaxAlloc = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
