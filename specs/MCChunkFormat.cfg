SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS RoundTrip Exact Mirror Prefix
CHECK_DEADLOCK FALSE
