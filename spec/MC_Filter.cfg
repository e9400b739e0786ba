INIT Init
NEXT Next
VIEW Hide
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 3
INVARIANT TypeOK
PROPERTY NamesRule Isolated Stays Outside Symmetric Idle
