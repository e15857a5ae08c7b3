CONSTANTS Kinds = {"BINARY", "PROBABILITY", "CONTINUOUS", "BOXCOX", "ENUM", "QUANTILE", "CONTINUOUS_ACTION", "DISCRETE_ACTION", "DO_NOT_PREPROCESS", "CLIP_LOG"}
 Size = 2
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
