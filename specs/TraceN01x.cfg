SPECIFICATION TraceSpec
CONSTANT Verdict <- N01xVerdict
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
