INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 2
INVARIANT ValidAll
PROPERTY OneAtATime
