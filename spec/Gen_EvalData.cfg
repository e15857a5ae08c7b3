INIT Init
NEXT Still
CONSTANTS N = 4
 Seqs = {0, 1, 3}
 Mdps = {1, 2}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
