SPECIFICATION TraceSpec
CONSTANT Verdict <- C03Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
