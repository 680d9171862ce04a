CONSTANTS N1 = 3  N2 = 2  N3 = 1  MaxThreads = 3  Fallback = FALSE  AllWays = TRUE
SPECIFICATION Spec
INVARIANTS Correct Components
CHECK_DEADLOCK FALSE
