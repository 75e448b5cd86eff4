SPECIFICATION Spec
CONSTANTS MaxReq = 2
Full = TRUE
INVARIANTS Right FewRun NonePassed CanAnswer
CHECK_DEADLOCK FALSE
