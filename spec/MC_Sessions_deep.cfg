SPECIFICATION MCSpec
CONSTANTS
  Clients = {c1, c2, c3}
  Keys = {k1, k2}
  Values = {v1, v2}
  Idle = idle
  MaxCalls = 4
INVARIANTS Functional Private
PROPERTIES Stable Returns
CHECK_DEADLOCK FALSE
