SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- BTAllowed
          Apply <- BTApply
CHECK_DEADLOCK FALSE
