SPECIFICATION Spec
CONSTANTS Limb = 4
  Width = 3
  MaxCalls = 3
  Given0 = {31, 32}
  Deviate <- Sloppy
INVARIANT Seen
CHECK_DEADLOCK FALSE
