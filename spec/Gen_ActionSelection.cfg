SPECIFICATION Spec
CONSTANTS MaxActions = 3
 MaxScore = 2
 Den = 16
 Steps = 4
INVARIANTS SoftIsDistribution EpsIsDistribution MaskedNever EpsMonotone EpsBounded Emit
CHECK_DEADLOCK FALSE
