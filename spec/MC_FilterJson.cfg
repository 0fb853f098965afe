INIT Init
NEXT Next
CONSTANT Depth = 12
INVARIANT FromParse
PROPERTY Independent
VIEW View
CHECK_DEADLOCK FALSE
