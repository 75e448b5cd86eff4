SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- LAllowed
          Apply <- LApply
CHECK_DEADLOCK FALSE
