SPECIFICATION Spec
CONSTANT Rich = TRUE
INVARIANT Insensitive
INVARIANT Toward
CHECK_DEADLOCK FALSE
