INIT Init
NEXT Next
CONSTANTS Depth = 9
 MaxT = 1000
 MaxV = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
