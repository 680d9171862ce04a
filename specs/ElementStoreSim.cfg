SPECIFICATION Spec
CONSTANTS Grids <- SimGrids
  Depth = 60
  MaxFill = 9
INVARIANT Emit
CHECK_DEADLOCK FALSE
