SPECIFICATION Spec
CONSTANTS
 Depth = 60
 MaxV = 8
 MaxT = 10
 MaxL = 6
 Coord = {0, 1, 3}
INVARIANTS InRange Emit
CHECK_DEADLOCK FALSE
