INIT Init
NEXT Next
CONSTANT Depth = 3
INVARIANTS RoundTrip NotBoth KindRange
VIEW View
CHECK_DEADLOCK FALSE
