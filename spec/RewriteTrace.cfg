SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- QAllowed
          Apply <- QApply
CHECK_DEADLOCK FALSE
