CONSTANTS N1 = 3  N2 = 2  N3 = 2  WRAP = FALSE
INIT Init
NEXT Next
INVARIANTS BoxShape DoneShape Disjoint Inside Covered
CHECK_DEADLOCK FALSE
