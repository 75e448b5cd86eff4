SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- ZAllowed
          Apply <- ZApply
CHECK_DEADLOCK FALSE
