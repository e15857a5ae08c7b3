SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANT Mass
INVARIANT Neighbours
INVARIANT Nonneg
INVARIANT MeanKept
INVARIANT Ends
