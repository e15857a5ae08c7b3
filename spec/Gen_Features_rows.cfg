CONSTANTS Fs = {1, 2, 3}
 Vs = {0, 4}
 MaxLen = 2
 MaxB = 2
 Depth = 3
INIT NoInit
NEXT Still
INVARIANT EmitRows
CHECK_DEADLOCK FALSE
