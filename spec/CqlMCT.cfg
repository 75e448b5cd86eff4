SPECIFICATION Spec
CONSTANTS Depth = 1
Words = {"a", "x y", ""}
Sess = {"1", "2"}
INVARIANTS Back Own NotBoth Live
CHECK_DEADLOCK FALSE
