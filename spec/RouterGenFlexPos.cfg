SPECIFICATION GSpec
CONSTANTS Kind = "flexml"
          Names = {"a", "b", "st"}
          Filters = {"f1", "f2", "f3"}
          Unknown = {"zz", "star"}
          Handles = {1, 2, 3, 4}
          Packages = {1}
          MaxLen = 4
          Depth = 40
          Mode = "pos"
CHECK_DEADLOCK FALSE
