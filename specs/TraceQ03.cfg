SPECIFICATION TraceSpec
CONSTANT Verdict <- Q03Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
