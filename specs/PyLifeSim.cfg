SPECIFICATION Spec
CONSTANTS
 K = 5
 Depth = 24
 MaxRoots = 4
 Weaken = ""
INVARIANTS AlwaysUsable Emit
CHECK_DEADLOCK FALSE
