SPECIFICATION Spec
CONSTANTS Part = "tables"
 Rewards <- SomeRewards
 Deep = FALSE
INVARIANTS Bandits Episodes Tables
CHECK_DEADLOCK FALSE
