CONSTANTS N = 4
 Confs = {1, 2}
 Modules = {1, 2}
 Files = {1, 2}
INIT InitM
NEXT NextM
INVARIANTS Found Known Apart Shares Order
CHECK_DEADLOCK FALSE
