INIT Init
NEXT Next
CONSTANT Depth = 4
INVARIANTS RoundTrip RoundTrip2 Related
CHECK_DEADLOCK FALSE
