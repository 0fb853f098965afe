INIT Init
NEXT Next
CONSTANT Depth = 4
INVARIANT OnlySigned
PROPERTY SignedAccepted
VIEW View
CHECK_DEADLOCK FALSE
