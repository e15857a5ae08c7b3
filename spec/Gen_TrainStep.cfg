SPECIFICATION Spec
CONSTANTS MaxK = 3
 MaxB = 2
PROPERTY OneAtATime
PROPERTY Semantics
CHECK_DEADLOCK FALSE
INVARIANT Emit
