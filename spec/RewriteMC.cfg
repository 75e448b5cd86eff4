SPECIFICATION Spec
CONSTANTS MaxReq = 1
Depth = 1
INVARIANTS OneWay Same Back
CHECK_DEADLOCK FALSE
