SPECIFICATION GSpec
CONSTANTS Kind = "chain"
          Names = {"a"}
          Filters = {"f1", "f2", "f3"}
          Unknown = {"zz"}
          Handles = {1, 2, 3, 4}
          Packages = {1}
          MaxLen = 6
          Depth = 30
          Mode = "pos"
CHECK_DEADLOCK FALSE
