SPECIFICATION Spec
CONSTANTS D1 = 8  C1 = 5  B1 = 9  D2 = 3  C2 = 2  B2 = 4
INVARIANTS ExtentOK BoundsOK CountOK TouchedOK MeetOK JoinOK
CHECK_DEADLOCK FALSE
