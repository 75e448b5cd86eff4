SPECIFICATION Spec
CONSTANT MaxReq = 2
INVARIANTS Guarded Answered
CHECK_DEADLOCK FALSE
