SPECIFICATION Spec
CONSTANT Wrong = 1
CONSTRAINT Few
INVARIANTS OneWrong Table Emit
CHECK_DEADLOCK FALSE
