SPECIFICATION Spec
CONSTANTS Clients = {1, 2}
 MaxReq = 3
 MaxSess = 2
 MaxSets = 2
 Faults = 1
 Ticks = 0
 Qs = {1, 2}
INVARIANTS AllAllowed Exclusive Held Limits Waiting
CHECK_DEADLOCK FALSE
