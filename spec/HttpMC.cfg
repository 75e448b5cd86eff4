SPECIFICATION Spec
CONSTANT N = 5
INVARIANT Inside
CHECK_DEADLOCK FALSE
