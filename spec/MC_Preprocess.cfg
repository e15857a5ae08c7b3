CONSTANTS Kinds = {"BINARY", "CONTINUOUS", "ENUM", "QUANTILE", "CLIP_LOG"}
 Size = 3
SPECIFICATION Spec
INVARIANTS Permutes Grouped Tiles
CHECK_DEADLOCK FALSE
