SPECIFICATION TraceSpec
CONSTANT Verdict <- G01Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
