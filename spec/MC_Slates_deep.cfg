SPECIFICATION Spec
CONSTANTS
  M = 3
  Top = 3
  Steps = 4
INVARIANT Fresh
PROPERTY AskedRight
CHECK_DEADLOCK FALSE
