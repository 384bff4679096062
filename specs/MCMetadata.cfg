SPECIFICATION Spec
CONSTANT Full = FALSE
INVARIANTS Faithful Decided Needed
CHECK_DEADLOCK FALSE
