SPECIFICATION Spec
CONSTANT MaxSteps = 3
INVARIANT Between
INVARIANT Copies
INVARIANT Frozen
INVARIANT SharedIsSource
INVARIANT SourceKept
CHECK_DEADLOCK FALSE
INVARIANT Emit
