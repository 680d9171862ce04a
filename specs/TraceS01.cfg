SPECIFICATION TraceSpec
CONSTANT Verdict <- S01Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
