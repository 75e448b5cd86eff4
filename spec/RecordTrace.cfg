SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- RAllowed
          Apply <- RApply
CHECK_DEADLOCK FALSE
