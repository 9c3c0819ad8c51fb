SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  MaxVar = 1
  Vary = "layout"
INVARIANT Same
CHECK_DEADLOCK FALSE
