SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  MaxVar = 1
  Vary = "case"
INVARIANT Same
CHECK_DEADLOCK FALSE
