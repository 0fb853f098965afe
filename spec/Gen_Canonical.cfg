INIT Init
NEXT Next
CONSTANTS Alpha = {34, 92, 10}
 TLen = 1
 CLen = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
