SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- PAllowed
          Apply <- PApply
CHECK_DEADLOCK FALSE
