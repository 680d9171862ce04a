SPECIFICATION TraceSpec
CONSTANT Verdict <- O01Verdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
