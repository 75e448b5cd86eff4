SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- LgAllowed
          Apply <- LgApply
CHECK_DEADLOCK FALSE
