SPECIFICATION Spec
CONSTANT MaxSteps = 5
INVARIANT Between
INVARIANT Copies
INVARIANT Frozen
INVARIANT SharedIsSource
INVARIANT SourceKept
CHECK_DEADLOCK FALSE
