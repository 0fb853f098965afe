INIT Init
NEXT Next
CONSTANT Depth = 8
CONSTANT Lens = {0, 1, 32, 33, 256, 257, 320, 321, 1000, 65535, 65536}
INVARIANT Emit
CHECK_DEADLOCK FALSE
