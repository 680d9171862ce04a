CONSTANTS N1 = 3  N2 = 2  N3 = 1  WRAP = FALSE
SPECIFICATION Spec
INVARIANTS BoxShape DoneShape Disjoint Inside Covered
PROPERTY Terminates
CHECK_DEADLOCK FALSE
