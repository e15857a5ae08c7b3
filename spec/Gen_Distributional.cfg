SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANT Mass
INVARIANT Neighbours
INVARIANT Nonneg
INVARIANT MeanKept
INVARIANT Ends
INVARIANT Emit
