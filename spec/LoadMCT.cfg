SPECIFICATION Spec
CONSTANTS MaxReq = 5
Sess = {1, 2, 3}
INVARIANTS Clean Quiet Answered
CHECK_DEADLOCK FALSE
