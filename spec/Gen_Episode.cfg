SPECIFICATION Spec
CONSTANTS MaxLimit = 4
 MaxLen = 4
 Rewards = {0, 1, 3}
INVARIANTS OneRecordPerStep Consecutive OnlyLastTerminal LimitHolds EndsForAReason CallbacksOnce Emit
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
