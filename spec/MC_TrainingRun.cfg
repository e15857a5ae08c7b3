SPECIFICATION Spec
CONSTANTS MaxRuns = 4
 MaxN = 3
 B = 3
INVARIANT EveryEpochOnce
INVARIANT NeverTooFar
PROPERTY AsAsked
CHECK_DEADLOCK FALSE
