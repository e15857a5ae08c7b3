SPECIFICATION Spec
CONSTANTS Part = "episodes"
 Rewards <- MoreRewards
 Deep = TRUE
INVARIANTS Bandits Episodes Tables
CHECK_DEADLOCK FALSE
