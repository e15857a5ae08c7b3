INIT Layouts
NEXT Still
CONSTANTS Lens = {1, 2}
 MaxSteps = 3
 Rewards <- SomeRewards
 Gammas = {4}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
