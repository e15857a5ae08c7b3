INIT Init
NEXT Still
CONSTANT Rewards = {0, 3}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
