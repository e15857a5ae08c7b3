SPECIFICATION Spec
CONSTANTS MaxRuns = 3
 MaxN = 2
 B = 2
INVARIANT EveryEpochOnce
INVARIANT NeverTooFar
PROPERTY AsAsked
INVARIANT Emit
CHECK_DEADLOCK FALSE
