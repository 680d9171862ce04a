CONSTANT Registry <- QuesoRegistry
SPECIFICATION TraceSpec
CONSTANT Verdict <- D03Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
