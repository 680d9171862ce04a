SPECIFICATION Spec
CONSTANTS Registry <- QuesoRegistry
  Roots <- QuesoRoots
  Depth = 60
  MaxLen = 3
  Sample = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
