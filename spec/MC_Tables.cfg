CONSTANTS N = 5
 Steps = 3
 Rewards = {0, 1, 2, 3}
 Lens = {1}
INIT InitM
NEXT NextM
INVARIANTS Law Bound Shares
CHECK_DEADLOCK FALSE
