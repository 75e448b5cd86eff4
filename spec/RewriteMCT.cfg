SPECIFICATION Spec
CONSTANTS MaxReq = 1
Depth = 2
INVARIANTS OneWay Same Back
CHECK_DEADLOCK FALSE
