INIT Init
NEXT Next
CONSTANT Depth = 4
INVARIANTS Authentic Delivered OneWrapOneKey
VIEW View
CHECK_DEADLOCK FALSE
