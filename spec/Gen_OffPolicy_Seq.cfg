INIT Seqs
NEXT Still
CONSTANTS Part = "none"
 Rewards <- SomeRewards
 Deep = FALSE
INVARIANTS EmitSeq
CHECK_DEADLOCK FALSE
