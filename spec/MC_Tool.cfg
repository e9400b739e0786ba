INIT Init
NEXT Next
VIEW Hide
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 3
INVARIANT TypeOKUp UtValid1
PROPERTY Fresh0 UtRestores Apart
