CONSTANTS N1 = 4  N2 = 2  N3 = 1  MaxThreads = 4  Fallback = TRUE  AllWays = TRUE
SPECIFICATION Spec
INVARIANTS Correct Components
CHECK_DEADLOCK FALSE
