CONSTANTS N1 = 3  N2 = 2  N3 = 1  MaxThreads = 3  Fallback = TRUE  AllWays = TRUE
SPECIFICATION Spec
INVARIANTS Correct Components
CHECK_DEADLOCK FALSE
