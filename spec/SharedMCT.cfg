SPECIFICATION Spec
CONSTANTS Clients = {1, 2, 3}
 MaxReq = 3
 MaxSess = 1
 MaxSets = 1
 Faults = 1
 Ticks = 0
 Qs = {1}
INVARIANTS AllAllowed Exclusive Held Limits Waiting
CHECK_DEADLOCK FALSE
