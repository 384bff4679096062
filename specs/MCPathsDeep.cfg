SPECIFICATION Spec
CONSTANTS Above = 8
  MaxLen = 8
  Names = {"a", "b"}
INVARIANTS Right Where Slack Agree
PROPERTIES Final
CHECK_DEADLOCK FALSE
