SPECIFICATION Spec
CONSTANTS MaxEls = 2
Wide = TRUE
INVARIANTS Syntax Count ByName Refused Answered NoRecords
CHECK_DEADLOCK FALSE
