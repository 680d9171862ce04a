SPECIFICATION TraceSpec
CONSTANT Verdict <- X01Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
