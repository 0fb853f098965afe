SPECIFICATION Spec
CONSTANTS N = 3
 Stride = 3
 Budget = 3
 Good = {}
 CheckUnderLock = TRUE
INVARIANTS Sound Complete Exclusive
PROPERTIES Stable Terminates
