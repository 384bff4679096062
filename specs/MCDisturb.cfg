SPECIFICATION MCSpec
CONSTANTS
  Suffix <- MCSuffix
  Deviate = FALSE
  Cuts = 1
INVARIANT Typed AllSound Repeated
CHECK_DEADLOCK FALSE
