SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- AAllowed
          Apply <- AApply
CHECK_DEADLOCK FALSE
