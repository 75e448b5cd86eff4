SPECIFICATION Spec
CONSTANTS MaxLen = 4
DocLen = 5
Wide = FALSE
INVARIANTS Idle Same Skips Anchors Literals Docs
CHECK_DEADLOCK FALSE
