SPECIFICATION Spec
CONSTANTS MaxReq = 3
MaxLen = 5
INVARIANTS Right CanAnswer
CHECK_DEADLOCK FALSE
