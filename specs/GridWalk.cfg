CONSTANT N = 3
SPECIFICATION Spec
INVARIANTS All Sound
PROPERTIES NoRepeat Ends
CHECK_DEADLOCK FALSE
