SPECIFICATION TraceSpec
CONSTANT Verdict <- I01Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
