SPECIFICATION Spec
CONSTANTS
 MaxT = 3
 Damages = 1
 CheckVertex = FALSE
 SkipFirst = TRUE
INVARIANTS Complete Faithful Accepts
PROPERTY Ends
CHECK_DEADLOCK FALSE
