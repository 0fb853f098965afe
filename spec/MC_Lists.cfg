INIT Init
NEXT Next
CONSTANT Depth = 3
INVARIANTS RoundTrip Secret
VIEW View
CHECK_DEADLOCK FALSE
