SPECIFICATION Spec
CONSTANTS Clients = {1, 2}
 MaxReq = 3
 MaxSess = 1
 MaxSets = 1
 Faults = 1
 Ticks = 0
 Qs = {1, 2}
INVARIANTS AllAllowed Exclusive Held Limits Waiting
PROPERTY Answered
CHECK_DEADLOCK FALSE
