SPECIFICATION Spec
CONSTANTS N = 3 Lo = 1 Hi = 2 Clip = TRUE
INVARIANTS NonNegative Independent Closer Optimal Least

CHECK_DEADLOCK FALSE
