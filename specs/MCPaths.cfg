SPECIFICATION Spec
CONSTANTS Above = 6
  MaxLen = 6
  Names = {"a", "b"}
INVARIANTS Right Where Slack Agree
PROPERTIES Final
CHECK_DEADLOCK FALSE
