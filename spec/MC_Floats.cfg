SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS
  Bits = 4
  QLow = 4
  QMax = 5
  MaxDigits = 3
  MaxEx = 2
