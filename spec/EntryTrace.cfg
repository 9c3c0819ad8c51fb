SPECIFICATION EntrySpec
CHECK_DEADLOCK FALSE
POSTCONDITION Examined
