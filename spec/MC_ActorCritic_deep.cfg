SPECIFICATION Spec
CONSTANT MaxSteps = 5
INVARIANT Pessimism
INVARIANT Delay
INVARIANT InRange
CHECK_DEADLOCK FALSE
