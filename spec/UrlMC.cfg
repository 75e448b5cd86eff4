SPECIFICATION USpec
CONSTANTS Alphabet = {36, 37, 123, 125, 97, 109, 47, 91}
          MaxLen = 5
INVARIANTS Literal Safety
CHECK_DEADLOCK FALSE
