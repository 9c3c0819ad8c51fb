SPECIFICATION Spec
CONSTANT NameCount = 3
INVARIANT OnlyNames
CHECK_DEADLOCK FALSE
