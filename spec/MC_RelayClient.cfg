INIT Init
NEXT Next
CONSTANT Depth = 6
CONSTANT Relays = {"1"}
INVARIANTS Coherent GivenLast Quiet Patient
VIEW View
CHECK_DEADLOCK FALSE
