SPECIFICATION Spec
CONSTANTS MaxCap = 6
 MaxStack = 3
 MaxN = 3
 MaxSteps = 7
INVARIANTS RingRefinesHistory OneCellEach WindowsIntact NothingLost Emit
CHECK_DEADLOCK FALSE
