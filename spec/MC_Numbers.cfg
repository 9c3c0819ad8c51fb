SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Signs = {"-"}
INVARIANTS Right Unambiguous
CHECK_DEADLOCK FALSE
