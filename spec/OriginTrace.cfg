SPECIFICATION TraceSpec
CONSTANTS StartOf <- OStart
          Allowed <- OgAllowed
          Apply <- OgApply
CHECK_DEADLOCK FALSE
