SPECIFICATION Spec
CONSTANT Registry <- QuesoRegistry
INVARIANTS Symmetric GaussAnyGrid Monotone GgqRefinesReduced2 EveryRuleUsable
CHECK_DEADLOCK FALSE
