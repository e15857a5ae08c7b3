INIT Init
NEXT Still
CONSTANTS Levels = {0, 1, 3}
 Epochs = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
