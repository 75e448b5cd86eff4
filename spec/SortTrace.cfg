SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- TAllowed
          Apply <- TApply
CHECK_DEADLOCK FALSE
