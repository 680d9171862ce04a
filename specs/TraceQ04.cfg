SPECIFICATION TraceSpec
CONSTANT Verdict <- Q04Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
