SPECIFICATION Spec
CONSTANTS Boxes <- SmallBoxes
  Tris <- SmallTris
  Mins = {13, 40}
  Depth = 3
  R = 2
  MaxTri = 26
  Sample = FALSE
VIEW View
INVARIANTS TightIsClosed
PROPERTIES RuleHolds BoxVolumes AppendAdds RefineKeeps OthersUntouched
CHECK_DEADLOCK FALSE
