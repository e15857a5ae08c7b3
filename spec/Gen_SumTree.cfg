SPECIFICATION Spec
CONSTANTS MaxN = 4
 MaxV = 2
 MaxOps = 3
INVARIANTS LeavesAreLastSet RootIsTotal DescentFindsInterval NeverZeroCell Emit
CHECK_DEADLOCK FALSE
