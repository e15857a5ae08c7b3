SPECIFICATION Spec
CONSTANT MaxK = 9
INVARIANT Conserved
INVARIANT Bounded
CHECK_DEADLOCK FALSE
