SPECIFICATION Spec
CONSTANTS
 Depth = 12
 Caps = {0, 1, 3, 5, 8, 16, 64}
 RawSizes = {0, 1, 5, 17, 80}
 ValSizes = {1, 2, 4, 8}
 Broken = FALSE
INVARIANTS NothingLost Emit
CHECK_DEADLOCK FALSE
