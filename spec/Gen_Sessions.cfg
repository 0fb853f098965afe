INIT Init
NEXT Next
CONSTANT Depth = 14
CONSTANT Ids = {1, 2, 3, 4}
CONSTANT Ticks = {1, 2, 3}
CONSTANT Amounts = {0, 1, 2, 3, 5, 6}
INVARIANT Emit
CHECK_DEADLOCK FALSE
