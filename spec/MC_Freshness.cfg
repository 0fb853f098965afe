INIT Init
NEXT Next
CONSTANT Depth = 5
INVARIANTS Monotone Verdict Sound
VIEW View
CHECK_DEADLOCK FALSE
