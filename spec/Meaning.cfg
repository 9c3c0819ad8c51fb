SPECIFICATION Spec
CONSTANTS
  Budget = 2
  Emit = TRUE
INVARIANTS Faithful Printed
CHECK_DEADLOCK FALSE
