INIT Init
NEXT Next
CONSTANTS Lazy = TRUE  Pieces = 4
INVARIANT Whole
CHECK_DEADLOCK FALSE
