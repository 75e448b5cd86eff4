SPECIFICATION Spec
CONSTANT MaxN = 9
INVARIANTS Few Small Goes
CHECK_DEADLOCK FALSE
