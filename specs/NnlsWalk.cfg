SPECIFICATION Spec
CONSTANTS N = 3 Lo = 1 Hi = 1 Clip = FALSE
INVARIANTS NonNegative Independent Closer Optimal Least
PROPERTY Ends
CHECK_DEADLOCK FALSE
