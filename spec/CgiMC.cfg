SPECIFICATION Spec
CONSTANTS MaxReq = 2
Full = FALSE
INVARIANTS Right FewRun NonePassed CanAnswer
CHECK_DEADLOCK FALSE
