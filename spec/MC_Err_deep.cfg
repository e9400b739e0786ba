INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 4 Full = 31
INVARIANT Bounded
PROPERTY Order Isolate
