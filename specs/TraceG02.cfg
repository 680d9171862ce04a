SPECIFICATION TraceSpec
CONSTANT Verdict <- G02Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
