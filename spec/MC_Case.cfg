SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxVar = 1
  Vary = "case"
INVARIANT Same
CHECK_DEADLOCK FALSE
