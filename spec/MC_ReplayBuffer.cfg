SPECIFICATION Spec
CONSTANTS MaxCap = 6
 MaxStack = 3
 MaxN = 3
 MaxSteps = 8
INVARIANTS RingRefinesHistory OneCellEach WindowsIntact NothingLost
CHECK_DEADLOCK FALSE
