SPECIFICATION GSpec
CONSTANTS Kind = "flexml"
          Names = {"a"}
          Filters = {"f1", "f2"}
          Unknown = {"zz"}
          Handles = {1}
          Packages = {1, 2, 3}
          MaxLen = 3
          Depth = 40
          Mode = "log"
CHECK_DEADLOCK FALSE
