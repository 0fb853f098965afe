INIT Init
NEXT Next
CONSTANT Chars = {34, 92, 10, 1, 47, 97}
INVARIANT Emit
CHECK_DEADLOCK FALSE
