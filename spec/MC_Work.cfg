INIT Init
NEXT Next
CONSTANT Depth = 3
INVARIANTS MinedVerifies MonotoneMin NoWorkNoPass
PROPERTY OtherTags
VIEW View
CHECK_DEADLOCK FALSE
