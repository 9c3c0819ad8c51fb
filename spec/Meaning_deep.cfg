SPECIFICATION Spec
CONSTANTS
  Budget = 3
  Emit = TRUE
INVARIANTS Faithful Printed
CHECK_DEADLOCK FALSE
