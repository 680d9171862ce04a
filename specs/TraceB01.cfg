SPECIFICATION TraceSpec
CONSTANT Verdict <- B01Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
