SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS
  Bits = 6
  QLow = 5
  QMax = 6
  MaxDigits = 4
  MaxEx = 2
