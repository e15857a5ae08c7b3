CONSTANTS Deep = TRUE
INIT Init
NEXT Next
INVARIANTS Same Scales Squash Choice Positive Pools
