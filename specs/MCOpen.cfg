SPECIFICATION Spec
CONSTANTS MaxSteps = 3
INVARIANTS Decided Agree RestKept
PROPERTIES Stable
CHECK_DEADLOCK FALSE
