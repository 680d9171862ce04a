CONSTANT Registry <- QuesoRegistry
SPECIFICATION TraceSpec
CONSTANT Verdict <- D01Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
