SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Modes Lines TokenLines Ends Quoted Bare Restart
CHECK_DEADLOCK FALSE
