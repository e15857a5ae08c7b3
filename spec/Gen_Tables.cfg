CONSTANTS N = 0
 Steps = 0
 Rewards = {0}
 Lens = {1, 2, 4}
INIT InitG
NEXT Still
INVARIANT Emit
CHECK_DEADLOCK FALSE
