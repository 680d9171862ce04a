CONSTANT Registry <- QuesoRegistry
SPECIFICATION TraceSpec
CONSTANT Verdict <- D02Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
