SPECIFICATION Spec
CONSTANTS N = 3
 Stride = 3
 Budget = 3
 Good = {4, 5, 8}
 CheckUnderLock = TRUE
INVARIANTS Sound Complete Exclusive
PROPERTIES Stable Terminates
