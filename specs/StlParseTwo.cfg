SPECIFICATION Spec
CONSTANTS
 MaxT = 3
 Damages = 2
 CheckVertex = TRUE
 SkipFirst = TRUE
INVARIANTS Complete Faithful Accepts
PROPERTY Ends
CHECK_DEADLOCK FALSE
