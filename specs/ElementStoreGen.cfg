SPECIFICATION Spec
CONSTANTS Grids <- SmallGrids
  Depth = 7
  MaxFill = 1
VIEW View
INVARIANTS TypeOK Typed Symmetric EndsAgree
PROPERTIES FrozenOnceLocked RefusalChangesNothing GrowsByTheAddedElement OnlyLockedAnswersLookups
CHECK_DEADLOCK FALSE
