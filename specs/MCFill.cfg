SPECIFICATION Spec
CONSTANTS EBits = 3
  MBits = 2
  Range = 140
  NegLo = 6
  ExpHi = 4
  W = 5
INVARIANTS FloatExact IntExact
CHECK_DEADLOCK FALSE
