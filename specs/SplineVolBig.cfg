SPECIFICATION Spec
CONSTANTS
 MaxN = 10
 MaxP = 8
INVARIANTS StartExact Linear Counts Complete
CHECK_DEADLOCK FALSE
