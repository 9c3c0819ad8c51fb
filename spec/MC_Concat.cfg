SPECIFICATION Spec
CONSTANT MaxParts = 2
INVARIANTS Parts Sum
CHECK_DEADLOCK FALSE
