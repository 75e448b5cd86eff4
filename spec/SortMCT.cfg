SPECIFICATION Spec
CONSTANT MaxReq = 5
INVARIANTS InOrder Whole Goes
CHECK_DEADLOCK FALSE
