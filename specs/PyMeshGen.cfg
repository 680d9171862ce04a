SPECIFICATION Spec
CONSTANTS
 Depth = 5
 MaxV = 3
 MaxT = 2
 MaxL = 2
 Coord = {0, 1}
INVARIANT InRange
PROPERTIES HeldStays RaiseKeeps
VIEW View
CHECK_DEADLOCK FALSE
