SPECIFICATION TraceSpec
CONSTANT Verdict <- C02Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
