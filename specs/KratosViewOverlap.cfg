SPECIFICATION Spec
CONSTANTS
 Depth = 3
 Shared = TRUE
 Free = TRUE
 NumMeshes = 2
 NumElems = 2
 Few = 0
 MaxConds = 1
INVARIANT ForceKept
VIEW View
CHECK_DEADLOCK FALSE
