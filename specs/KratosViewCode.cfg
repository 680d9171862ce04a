SPECIFICATION Spec
CONSTANTS
 Depth = 3
 Shared = TRUE
 Free = FALSE
 NumMeshes = 2
 NumElems = 2
 Few = 0
 MaxConds = 1
INVARIANTS ForceKept PenaltyKept Supports Elems
PROPERTIES FixedStays RefusedKeeps
VIEW View
CHECK_DEADLOCK FALSE
