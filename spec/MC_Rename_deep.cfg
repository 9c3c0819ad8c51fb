SPECIFICATION Spec
CONSTANT NameCount = 4
INVARIANT OnlyNames
CHECK_DEADLOCK FALSE
