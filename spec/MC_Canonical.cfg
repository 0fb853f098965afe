INIT Init
NEXT Next
CONSTANTS Alpha = {34, 92, 44, 97}
 TLen = 1
 CLen = 2
CHECK_DEADLOCK FALSE
