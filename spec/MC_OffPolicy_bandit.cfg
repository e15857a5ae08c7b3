SPECIFICATION Spec
CONSTANTS Part = "bandit"
 Rewards <- SomeRewards
 Deep = FALSE
INVARIANTS Bandits Episodes Tables
CHECK_DEADLOCK FALSE
