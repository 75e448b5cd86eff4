SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- CAllowed
          Apply <- CApply
CHECK_DEADLOCK FALSE
