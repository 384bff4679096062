SPECIFICATION Spec
CONSTANTS EBits = 4
  MBits = 3
  Range = 700
  NegLo = 6
  ExpHi = 4
  W = 8
INVARIANTS FloatExact IntExact
CHECK_DEADLOCK FALSE
