SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- YAllowed
          Apply <- YApply
CHECK_DEADLOCK FALSE
