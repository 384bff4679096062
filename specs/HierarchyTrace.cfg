SPECIFICATION TraceSpec
CONSTANT Suffix <- TraceSuffix
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
