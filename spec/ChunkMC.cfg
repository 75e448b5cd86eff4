SPECIFICATION Spec
CONSTANT MaxN = 5
INVARIANTS Few Small Goes
CHECK_DEADLOCK FALSE
