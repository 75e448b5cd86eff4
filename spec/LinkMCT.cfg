SPECIFICATION Spec
CONSTANTS MaxLen = 5
DocLen = 7
Wide = TRUE
INVARIANTS Idle Same Skips Anchors Literals Docs
CHECK_DEADLOCK FALSE
