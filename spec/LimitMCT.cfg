SPECIFICATION Spec
CONSTANTS MaxReq = 5
Sess = {1, 2}
INVARIANTS Free Near Capped Answered
CHECK_DEADLOCK FALSE
