SPECIFICATION TraceSpec
CONSTANT Verdict <- N01Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
