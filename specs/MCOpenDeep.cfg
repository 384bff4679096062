SPECIFICATION Spec
CONSTANTS MaxSteps = 5
INVARIANTS Decided Agree RestKept
PROPERTIES Stable
CHECK_DEADLOCK FALSE
