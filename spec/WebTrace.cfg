SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- WAllowed
          Apply <- WApply
CHECK_DEADLOCK FALSE
