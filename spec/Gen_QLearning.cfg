SPECIFICATION Spec
CONSTANT Rich = FALSE
INVARIANT Insensitive
INVARIANT Toward
INVARIANT Emit
CHECK_DEADLOCK FALSE
