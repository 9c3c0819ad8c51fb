SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Modes Lines TokenLines Ends Quoted Bare Restart
CHECK_DEADLOCK FALSE
