SPECIFICATION Spec
CONSTANT Rewards = {0, 3}
INVARIANTS RolloutsRight EnumerationIsDp SomeBest Short
PROPERTIES Done
CHECK_DEADLOCK FALSE
