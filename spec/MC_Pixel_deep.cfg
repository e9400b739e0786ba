INIT Init
NEXT Next
VIEW Hide
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 5
INVARIANT TypeOK
PROPERTY NamesRule Isolated Twice Stays Apart
