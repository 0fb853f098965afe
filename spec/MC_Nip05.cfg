INIT Init
NEXT Next
CONSTANT Depth = 2
INVARIANTS Sound Complete RelaysValid
VIEW View
CHECK_DEADLOCK FALSE
