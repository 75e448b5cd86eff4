SPECIFICATION GSpec
CONSTANTS Kind = "chain"
          Names = {"a"}
          Filters = {"f1", "f2"}
          Unknown = {"zz"}
          Handles = {1, 2, 3}
          Packages = {1}
          MaxLen = 2
          Depth = 5
          Mode = "pos"
CHECK_DEADLOCK FALSE
INVARIANT InOrder
PROPERTY Independent
