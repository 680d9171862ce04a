SPECIFICATION Spec
CONSTANTS
 Depth = 7
 Shared = TRUE
 Free = FALSE
 NumMeshes = 4
 NumElems = 2
 Few = 4
 MaxConds = 2
INVARIANTS ForceKept PenaltyKept Supports Elems Emit
CHECK_DEADLOCK FALSE
