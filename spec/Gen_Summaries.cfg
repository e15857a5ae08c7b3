CONSTANTS N = 6
 Depth = 3
INIT Init
NEXT Next
INVARIANTS Active Silent Steps Emit
CHECK_DEADLOCK FALSE
