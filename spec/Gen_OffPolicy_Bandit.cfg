INIT Kinds
NEXT Still
CONSTANTS Part = "none"
 Rewards <- SomeRewards
 Deep = FALSE
INVARIANTS EmitBandit
CHECK_DEADLOCK FALSE
