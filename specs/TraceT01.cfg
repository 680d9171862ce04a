SPECIFICATION TraceSpec
CONSTANT Verdict <- T01Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
