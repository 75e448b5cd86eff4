SPECIFICATION TraceSpec
CONSTANTS StartOf <- FStart
          Allowed <- FxAllowed
          Apply <- FxApply
CHECK_DEADLOCK FALSE
