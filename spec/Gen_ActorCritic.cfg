SPECIFICATION Spec
CONSTANT MaxSteps = 3
INVARIANT Pessimism
INVARIANT Delay
INVARIANT InRange
INVARIANT Emit
CHECK_DEADLOCK FALSE
