SPECIFICATION Spec
CONSTANTS MaxCap = 6
 MaxStack = 2
 MaxN = 3
 MaxSteps = 6
INVARIANTS RingRefinesHistory OneCellEach WindowsIntact NothingLost Emit
CHECK_DEADLOCK FALSE
