INIT Init
NEXT Next
CONSTANT Depth = 5
CONSTANT Lens = {1, 33}
INVARIANTS Genuine Delivered FreshNonce
VIEW View
CHECK_DEADLOCK FALSE
