SPECIFICATION Spec
CONSTANTS MaxReq = 3
Nums = {0, 1, 2, 41, 42, 43}
INVARIANTS OneAnswer Whole Ranges
CHECK_DEADLOCK FALSE
