SPECIFICATION Spec
CONSTANTS N = 4
 Seqs = {0, 1, 3}
 Mdps = {1, 2}
INVARIANTS SortedIsValid SameRows Idempotent BackwardsIsSum
CHECK_DEADLOCK FALSE
