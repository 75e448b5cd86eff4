SPECIFICATION TraceSpec
CONSTANTS StartOf <- UStart
          Allowed <- UtilAllowed
          Apply <- UtilApply
CHECK_DEADLOCK FALSE
