SPECIFICATION ConcSpec
CONSTANTS
  Suffix <- TraceSuffix
  Deviate <- DeviateEnv
INVARIANT Finished
CHECK_DEADLOCK FALSE
