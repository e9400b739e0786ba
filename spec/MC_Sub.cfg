INIT Init
NEXT Next
VIEW Hide
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 3 MaxNodes = 5
INVARIANT TypeOK
PROPERTY NamesRule Isolated Selects
