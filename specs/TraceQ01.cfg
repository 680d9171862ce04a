SPECIFICATION TraceSpec
CONSTANT Verdict <- Q01Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
