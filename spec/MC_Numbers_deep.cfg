SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Signs = {"-", "+"}
INVARIANTS Right Unambiguous
CHECK_DEADLOCK FALSE
