SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- FAllowed
          Apply <- FApply
CHECK_DEADLOCK FALSE
