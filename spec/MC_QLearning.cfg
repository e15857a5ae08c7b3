SPECIFICATION Spec
CONSTANT Rich = FALSE
INVARIANT Insensitive
INVARIANT Toward
CHECK_DEADLOCK FALSE
