SPECIFICATION Spec
CONSTANTS
  Texts = {"x", "y"}
  MaxEdits = 2
INVARIANTS Faithful Lossless
CHECK_DEADLOCK FALSE
