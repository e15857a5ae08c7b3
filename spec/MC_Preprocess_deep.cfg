CONSTANTS Kinds = {"BINARY", "PROBABILITY", "CONTINUOUS", "BOXCOX", "ENUM", "QUANTILE", "CONTINUOUS_ACTION", "DO_NOT_PREPROCESS", "CLIP_LOG"}
 Size = 3
SPECIFICATION Spec
INVARIANTS Permutes Grouped Tiles
CHECK_DEADLOCK FALSE
