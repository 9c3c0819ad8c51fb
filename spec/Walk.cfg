SPECIFICATION Spec
CONSTANTS
  MaxTags = 1
  MaxDepth = 2
  Emit = TRUE
VIEW View
INVARIANTS Viable Prompt Exact Settled Counted Printed
CHECK_DEADLOCK FALSE
