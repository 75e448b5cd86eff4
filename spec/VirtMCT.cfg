SPECIFICATION Spec
CONSTANTS MaxReq = 4
INVARIANTS Held Distinct Stuck
CHECK_DEADLOCK FALSE
