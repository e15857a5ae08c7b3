SPECIFICATION Spec
CONSTANTS Lens = {1, 2}
 MaxSteps = 4
 Rewards <- SomeRewards
 Gammas = {4, 8}
INVARIANTS SamePolicy RightModel BlindModel Normal Unbiased
CHECK_DEADLOCK FALSE
