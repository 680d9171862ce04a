SPECIFICATION Spec
CONSTANTS Registry <- MiniRegistry
  Roots <- MiniRoots
  Depth = 4
  MaxLen = 1
  Sample = FALSE
VIEW View
INVARIANTS RoundTrip Typed CheckedMeansComplete Types1
PROPERTIES RefusalChangesNoValue QueriesChangeNothing Frame ReadBack CheckLaw ListsGrow
CHECK_DEADLOCK FALSE
