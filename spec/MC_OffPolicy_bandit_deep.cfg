SPECIFICATION Spec
CONSTANTS Part = "bandit"
 Rewards <- MoreRewards
 Deep = TRUE
INVARIANTS Bandits Episodes Tables
CHECK_DEADLOCK FALSE
