CONSTANTS Fs = {1, 2, 3}
 Vs = {0, 4, 7}
 MaxLen = 3
 MaxB = 3
 Depth = 3
SPECIFICATION Spec
INVARIANT Passed
PROPERTY Settled
CHECK_DEADLOCK FALSE
