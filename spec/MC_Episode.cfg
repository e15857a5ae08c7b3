SPECIFICATION Spec
CONSTANTS MaxLimit = 6
 MaxLen = 5
 Rewards = {0, 1, 3}
INVARIANTS OneRecordPerStep Consecutive OnlyLastTerminal LimitHolds EndsForAReason CallbacksOnce
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
