SPECIFICATION Spec
CONSTANT Positions = {1, 2, 3, 4, 5, 6, 7}
INVARIANT DecidedHere
CHECK_DEADLOCK FALSE
