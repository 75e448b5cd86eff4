SPECIFICATION Spec
CONSTANT N = 7
INVARIANT Inside
CHECK_DEADLOCK FALSE
