SPECIFICATION Spec
CONSTANT MaxK = 6
INVARIANT BestIsLowest
INVARIANT Together
INVARIANT NotPulled
CHECK_DEADLOCK FALSE
