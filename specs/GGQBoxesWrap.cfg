CONSTANTS N1 = 2  N2 = 3  N3 = 1  WRAP = TRUE
SPECIFICATION Spec
INVARIANTS BoxShape DoneShape Disjoint Inside Covered
CHECK_DEADLOCK FALSE
