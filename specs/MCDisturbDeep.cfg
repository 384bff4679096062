SPECIFICATION MCSpec
CONSTANTS
  Suffix <- MCSuffix
  Deviate = FALSE
  Cuts = 2
INVARIANT Typed AllSound Repeated
CHECK_DEADLOCK FALSE
