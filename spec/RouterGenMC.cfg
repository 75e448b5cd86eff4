SPECIFICATION GSpec
CONSTANTS Kind = "flexml"
          Names = {"a"}
          Filters = {"f1", "f2"}
          Unknown = {"zz"}
          Handles = {1, 2}
          Packages = {1}
          MaxLen = 2
          Depth = 4
          Mode = "pos"
CHECK_DEADLOCK FALSE
INVARIANT InOrder
PROPERTY Independent
