CONSTANTS N = 7
 Depth = 3
INIT Init
NEXT Next
INVARIANTS Active Silent Steps
CHECK_DEADLOCK FALSE
