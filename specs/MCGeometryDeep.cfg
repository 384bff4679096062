SPECIFICATION Spec
CONSTANTS D1 = 14  C1 = 9  B1 = 16  D2 = 4  C2 = 3  B2 = 5
INVARIANTS ExtentOK BoundsOK CountOK TouchedOK MeetOK JoinOK
CHECK_DEADLOCK FALSE
