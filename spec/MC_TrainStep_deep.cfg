SPECIFICATION Spec
CONSTANTS MaxK = 3
 MaxB = 3
PROPERTY OneAtATime
PROPERTY Semantics
CHECK_DEADLOCK FALSE
