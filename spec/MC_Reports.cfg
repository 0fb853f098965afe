INIT Init
NEXT Next
CONSTANTS Lazy = FALSE  Pieces = 4
INVARIANT Whole
CHECK_DEADLOCK FALSE
