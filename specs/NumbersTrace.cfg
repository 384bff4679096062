SPECIFICATION TSpec
CONSTANTS Limb = 65536
  Deviate <- DeviateEnv
INVARIANT Finished
CHECK_DEADLOCK FALSE
