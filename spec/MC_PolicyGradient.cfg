SPECIFICATION Spec
CONSTANTS Freq = 4
 Epochs = 3
 B = 3
 N = 10
INVARIANT EachOncePerPass
CHECK_DEADLOCK FALSE
