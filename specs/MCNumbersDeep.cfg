SPECIFICATION Spec
CONSTANTS Limb = 4
  Width = 3
  MaxCalls = 4
  Given0 = {27, 31, 32, 47}
  Deviate <- Sloppy
INVARIANT Seen
CHECK_DEADLOCK FALSE
