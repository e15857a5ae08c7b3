SPECIFICATION Spec
CONSTANTS MaxIter = 9
 MaxOps = 6
INVARIANTS Retained NewestKept Faithful Emit
CHECK_DEADLOCK FALSE
