INIT Init
NEXT Next
CONSTANT Depth = 18
CONSTANT Relays = {"1", "2"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
