SPECIFICATION Spec
CONSTANTS Clients = {1, 2}
 MaxReq = 3
 MaxSess = 2
 MaxSets = 1
 Faults = 0
 Ticks = 2
 Qs = {1, 2}
INVARIANTS AllAllowed Exclusive Held Limits Waiting
CHECK_DEADLOCK FALSE
