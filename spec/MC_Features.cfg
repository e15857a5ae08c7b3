CONSTANTS Fs = {1, 2, 3}
 Vs = {0, 4}
 MaxLen = 2
 MaxB = 2
 Depth = 3
SPECIFICATION Spec
INVARIANT Passed
PROPERTY Settled
CHECK_DEADLOCK FALSE
