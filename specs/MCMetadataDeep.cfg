SPECIFICATION Spec
CONSTANT Full = TRUE
INVARIANTS Faithful Decided Needed
CHECK_DEADLOCK FALSE
