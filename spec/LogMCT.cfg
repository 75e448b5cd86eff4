SPECIFICATION Spec
CONSTANTS Sessions = {1, 2}
MaxQ = 4
Filters = 2
INVARIANTS Told Whole UserKnown Clean Once
