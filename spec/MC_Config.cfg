CONSTANTS
 N = 3
 Cut = 1
SPECIFICATION Spec
INVARIANTS Unique OnlyConcrete AllConcrete
PROPERTY ClosedStays
CHECK_DEADLOCK FALSE
