SPECIFICATION Spec
CONSTANTS
  Texts = {"x", "y"}
  MaxEdits = 1
INVARIANTS Faithful Lossless
CHECK_DEADLOCK FALSE
