SPECIFICATION Spec
CONSTANTS MaxReq = 2
MaxRec = 2
Sess = {1, 2}
INVARIANTS Bounced NoDiags Explains CanAnswer
CHECK_DEADLOCK FALSE
