SPECIFICATION Spec
CONSTANTS
  P = 2
  MaxPos = 4
  MaxW = 2
  Tol = 1
  Big = 8
  Cand = 2
  Result = "previous"
  Reported = "previous"
INVARIANTS Sound Told Never NotEmpty OnCandidates
PROPERTY Ends
CHECK_DEADLOCK FALSE
