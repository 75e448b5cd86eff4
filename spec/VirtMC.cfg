SPECIFICATION Spec
CONSTANTS MaxReq = 3
INVARIANTS Held Distinct Stuck
CHECK_DEADLOCK FALSE
