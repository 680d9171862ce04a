SPECIFICATION TraceSpec
CONSTANT Verdict <- C01Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
