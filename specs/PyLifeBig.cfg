SPECIFICATION Spec
CONSTANTS
 K = 3
 Depth = 8
 MaxRoots = 2
 Weaken = ""
INVARIANT AlwaysUsable
VIEW View
CHECK_DEADLOCK FALSE
