SPECIFICATION Spec
CONSTANTS N = 6
 MinT = 1
 MaxT = 3
 Grp = 2
INVARIANTS AllAllowed Conserved Progress
PROPERTY AllDone
CHECK_DEADLOCK FALSE
