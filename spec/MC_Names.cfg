SPECIFICATION Spec
CONSTANT Positions = {1, 5}
INVARIANT DecidedHere
CHECK_DEADLOCK FALSE
