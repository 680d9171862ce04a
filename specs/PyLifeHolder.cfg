SPECIFICATION Spec
CONSTANTS
 K = 2
 Depth = 4
 MaxRoots = 2
 Weaken = "H"
INVARIANT AlwaysUsable
VIEW View
CHECK_DEADLOCK FALSE
