SPECIFICATION Spec
CONSTANTS Levels = {0, 1, 2}
  Depth = 3
  Kinds = 5
VIEW View
INVARIANTS Disjoint Covers Drops CutAtMaximum UncutAtMinimum NotFiner SameAsOnce
PROPERTIES Monotone RefusalKeeps
CHECK_DEADLOCK FALSE
