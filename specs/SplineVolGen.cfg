SPECIFICATION Spec
CONSTANTS
 MaxN = 6
 MaxP = 5
INVARIANTS StartExact Linear Counts Complete
CHECK_DEADLOCK FALSE
