SPECIFICATION TraceSpec
CONSTANT Verdict <- I02Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
