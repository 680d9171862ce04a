SPECIFICATION TraceSpec
CONSTANT Verdict <- Q02Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
