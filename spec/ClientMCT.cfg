SPECIFICATION Spec
CONSTANTS Sessions = {1, 2}
MaxQ = 4
MaxC = 9
Full = TRUE
INVARIANTS OneAtATime Limit Own Soon AllEnd
