SPECIFICATION Spec
CONSTANTS MaxCap = 8
 MaxStack = 4
 MaxN = 4
 MaxSteps = 12
INVARIANTS RingRefinesHistory OneCellEach WindowsIntact NothingLost
CHECK_DEADLOCK FALSE
