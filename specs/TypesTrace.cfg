SPECIFICATION Spec
CONSTANTS N = 2
  C = 2
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
