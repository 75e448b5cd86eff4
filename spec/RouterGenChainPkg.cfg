SPECIFICATION GSpec
CONSTANTS Kind = "chain"
          Names = {"a"}
          Filters = {"f1", "f2", "f3"}
          Unknown = {"zz"}
          Handles = {1}
          Packages = {1, 2, 3}
          MaxLen = 6
          Depth = 40
          Mode = "pkg"
CHECK_DEADLOCK FALSE
