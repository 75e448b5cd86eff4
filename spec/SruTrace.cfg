SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- SAllowed
          Apply <- SApply
CHECK_DEADLOCK FALSE
