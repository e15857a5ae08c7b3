SPECIFICATION Spec
CONSTANT Rich = FALSE
INVARIANT OwnItems
INVARIANT Between
INVARIANT Terminal
INVARIANT Moves
INVARIANT Emit
CHECK_DEADLOCK FALSE
