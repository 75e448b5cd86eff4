SPECIFICATION Spec
CONSTANTS
  Conns = {1, 3}
  MaxReq = 1
  MaxT = 1000
  MaxRules = 1
INVARIANTS Limits Rate WebRate Threads OneEach Ends AtEnd GoesOn
CHECK_DEADLOCK FALSE
