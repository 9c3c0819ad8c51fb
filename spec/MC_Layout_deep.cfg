SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxVar = 3
  Vary = "layout"
INVARIANT Same
CHECK_DEADLOCK FALSE
