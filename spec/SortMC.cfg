SPECIFICATION Spec
CONSTANT MaxReq = 3
INVARIANTS InOrder Whole Goes
CHECK_DEADLOCK FALSE
