SPECIFICATION Spec
CONSTANTS MaxEls = 2
Wide = FALSE
INVARIANTS Syntax Count ByName Refused Answered NoRecords
CHECK_DEADLOCK FALSE
