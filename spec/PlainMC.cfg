SPECIFICATION Spec
CONSTANTS MaxReq = 2
MaxRec = 1
Sess = {1, 2}
INVARIANTS Bounced NoDiags Explains CanAnswer
CHECK_DEADLOCK FALSE
