SPECIFICATION JsonSpec
CHECK_DEADLOCK FALSE
POSTCONDITION Examined
