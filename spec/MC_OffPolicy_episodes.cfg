SPECIFICATION Spec
CONSTANTS Part = "episodes"
 Rewards <- SomeRewards
 Deep = FALSE
INVARIANTS Bandits Episodes Tables
CHECK_DEADLOCK FALSE
