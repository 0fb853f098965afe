INIT Init
NEXT Next
CONSTANT Depth = 2
INVARIANTS Sound Narrowing OnlyValid
CHECK_DEADLOCK FALSE
