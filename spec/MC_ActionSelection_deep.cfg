SPECIFICATION Spec
CONSTANTS MaxActions = 4
 MaxScore = 2
 Den = 16
 Steps = 4
INVARIANTS SoftIsDistribution EpsIsDistribution MaskedNever EpsMonotone EpsBounded
CHECK_DEADLOCK FALSE
