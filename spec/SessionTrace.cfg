SPECIFICATION TraceSpec
CONSTANTS StartOf <- SStart
          Allowed <- SesAllowed
          Apply <- SesApply
CHECK_DEADLOCK FALSE
