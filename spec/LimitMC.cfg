SPECIFICATION Spec
CONSTANTS MaxReq = 4
Sess = {1, 2}
INVARIANTS Free Near Capped Answered
CHECK_DEADLOCK FALSE
