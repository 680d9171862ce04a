SPECIFICATION Spec
CONSTANTS Boxes <- SimBoxes
  Tris <- SimTris2
  Mins = {1, 5, 13, 14, 30, 49, 60}
  Depth = 9
  R = 3
  MaxTri = 50
  Sample = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
