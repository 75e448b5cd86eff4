SPECIFICATION Spec
CONSTANTS Sessions = {1, 2}
MaxQ = 3
Filters = 2
INVARIANTS Told Whole UserKnown Clean Once
