CONSTANTS
 N = 4
 Cut = 2
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
