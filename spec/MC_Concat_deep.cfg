SPECIFICATION Spec
CONSTANT MaxParts = 3
INVARIANTS Parts Sum
CHECK_DEADLOCK FALSE
