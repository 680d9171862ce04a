SPECIFICATION TraceSpec
CONSTANT Verdict <- K01Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
