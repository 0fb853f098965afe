INIT Init
NEXT Next
CONSTANTS Depth = 5
 Slots = {"a", "b"}
 MaxAlloc = 2
INVARIANTS Safe Explained
VIEW View
CHECK_DEADLOCK FALSE
