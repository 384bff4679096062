SPECIFICATION Spec
CONSTANTS
  Used = {"lz4", "xz"}
  Paths = {"a", "b"}
  Posns = {0}
  Data = {"d", "e"}
INVARIANTS Exchange Kept
CHECK_DEADLOCK FALSE
