SPECIFICATION Spec
CONSTANTS N = 5
 MinT = 1
 MaxT = 3
 Grp = 2
INVARIANTS AllAllowed Conserved Progress
PROPERTY AllDone
CHECK_DEADLOCK FALSE
