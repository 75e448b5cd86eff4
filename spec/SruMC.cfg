SPECIFICATION Spec
CONSTANT MaxN = 3
INVARIANTS Few Right Closed Goes
CHECK_DEADLOCK FALSE
