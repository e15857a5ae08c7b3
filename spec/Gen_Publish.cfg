CONSTANTS N = 3
 Confs = {1, 2}
 Modules = {1, 2}
 Files = {1, 2}
INIT InitM
NEXT NextM
INVARIANT Emit
CHECK_DEADLOCK FALSE
