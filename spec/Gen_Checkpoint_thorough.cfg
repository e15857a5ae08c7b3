SPECIFICATION Spec
CONSTANTS MaxIter = 9
 MaxOps = 7
INVARIANTS Retained NewestKept Faithful Emit
CHECK_DEADLOCK FALSE
