SPECIFICATION TraceSpec
CONSTANT Verdict <- P01Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
