SPECIFICATION Spec
CONSTANTS MaxN = 6
 MaxV = 3
 MaxOps = 4
INVARIANTS LeavesAreLastSet RootIsTotal DescentFindsInterval NeverZeroCell
CHECK_DEADLOCK FALSE
