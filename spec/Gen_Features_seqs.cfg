CONSTANTS Fs = {1, 2}
 Vs = {0}
 MaxLen = 2
 MaxB = 2
 Depth = 2
INIT Init
NEXT Next
INVARIANT EmitSeqs
CHECK_DEADLOCK FALSE
