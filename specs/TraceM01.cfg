SPECIFICATION TraceSpec
CONSTANT Verdict <- M01Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
