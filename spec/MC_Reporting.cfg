CONSTANTS N = 8
 KMax = 4
INIT Init
NEXT Next
INVARIANTS Conserved NeverEmpty Bounded WithinEpoch
CHECK_DEADLOCK FALSE
