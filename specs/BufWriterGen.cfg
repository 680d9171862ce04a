SPECIFICATION Spec
CONSTANTS
 Depth = 4
 Caps = {0, 1, 3, 5, 8}
 RawSizes = {0, 2, 6}
 ValSizes = {1, 2, 4}
 Broken = FALSE
INVARIANTS NothingLost Bounded FlushedAll
CHECK_DEADLOCK FALSE
