SPECIFICATION Spec
CONSTANTS K = 2
  Depth = 12
  MaxConds = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
