SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- MAllowed
          Apply <- MApply
CHECK_DEADLOCK FALSE
