SPECIFICATION Spec
INVARIANTS First Function NoTables
PROPERTY Halts
CHECK_DEADLOCK FALSE
