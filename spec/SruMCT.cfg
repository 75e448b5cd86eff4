SPECIFICATION Spec
CONSTANT MaxN = 6
INVARIANTS Few Right Closed Goes
CHECK_DEADLOCK FALSE
