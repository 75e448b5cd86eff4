SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- GAllowed
          Apply <- GApply
CHECK_DEADLOCK FALSE
