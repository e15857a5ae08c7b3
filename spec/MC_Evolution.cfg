SPECIFICATION Spec
CONSTANTS Levels = {0, 1, 3}
 Epochs = 2
INVARIANTS FirstMove Bounded Stays
CHECK_DEADLOCK FALSE
