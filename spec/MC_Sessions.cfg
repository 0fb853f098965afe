INIT Init
NEXT Next
CONSTANT Depth = 6
CONSTANT Ids = {1, 2, 3}
CONSTANT Ticks = {1, 2}
CONSTANT Amounts = {3, 6}
INVARIANTS Bounded Table Dead Decided
VIEW View
CHECK_DEADLOCK FALSE
