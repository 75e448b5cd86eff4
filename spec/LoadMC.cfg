SPECIFICATION Spec
CONSTANTS MaxReq = 4
Sess = {1, 2, 3}
INVARIANTS Clean Quiet Answered
CHECK_DEADLOCK FALSE
