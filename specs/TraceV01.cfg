SPECIFICATION TraceSpec
CONSTANT Verdict <- V01Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
