INIT Init
NEXT Next
VIEW Hide
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 5 MaxNames = 5 MaxGen = 3
INVARIANT TypeOK
PROPERTY NamesRule Isolated CopiesEqual
