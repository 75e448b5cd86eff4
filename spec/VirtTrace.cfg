SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- VAllowed
          Apply <- VApply
CHECK_DEADLOCK FALSE
