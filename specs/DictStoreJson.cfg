SPECIFICATION JSpec
CONSTANTS Registry <- QuesoRegistry
  Roots <- QuesoRoots
  Depth = 50
  MaxLen = 3
  Sample = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
