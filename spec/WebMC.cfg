SPECIFICATION Spec
CONSTANTS MaxReq = 2
MaxLen = 2
INVARIANTS Right CanAnswer
CHECK_DEADLOCK FALSE
