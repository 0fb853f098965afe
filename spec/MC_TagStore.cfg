INIT Init
NEXT Next
CONSTANTS Depth = 6
 MaxT = 4
 MaxV = 2
INVARIANTS Bounded Agree
PROPERTY AppendOnly Apart
VIEW View
CHECK_DEADLOCK FALSE
