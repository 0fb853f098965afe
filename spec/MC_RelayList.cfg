INIT Init
NEXT Next
CONSTANT Depth = 4
INVARIANTS WellFormed RoundTrip Covered
VIEW View
CHECK_DEADLOCK FALSE
