SPECIFICATION Spec
CONSTANT MaxReq = 3
INVARIANTS Guarded Answered
CHECK_DEADLOCK FALSE
