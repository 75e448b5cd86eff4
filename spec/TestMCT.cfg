SPECIFICATION Spec
CONSTANTS MaxReq = 4
Nums <- Many
INVARIANTS OneAnswer Whole Ranges
CHECK_DEADLOCK FALSE
