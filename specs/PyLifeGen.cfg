SPECIFICATION Spec
CONSTANTS
 K = 2
 Depth = 6
 MaxRoots = 2
 Weaken = ""
INVARIANT AlwaysUsable
VIEW View
CHECK_DEADLOCK FALSE
