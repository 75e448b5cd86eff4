SPECIFICATION TraceSpec
CONSTANTS StartOf <- FStart
          Allowed <- FaAllowed
          Apply <- FaApply
CHECK_DEADLOCK FALSE
