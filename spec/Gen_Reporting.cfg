CONSTANTS N = 6
 KMax = 3
INIT Init
NEXT Next
INVARIANTS Conserved NeverEmpty Bounded WithinEpoch Emit
CHECK_DEADLOCK FALSE
