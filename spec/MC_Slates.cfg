SPECIFICATION Spec
CONSTANTS
  M = 3
  Top = 2
  Steps = 3
INVARIANT Fresh
PROPERTY AskedRight
CHECK_DEADLOCK FALSE
