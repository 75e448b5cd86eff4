SPECIFICATION TraceSpec
CONSTANTS StartOf <- RStart
          Allowed <- RtAllowed
          Apply <- RtApply
CHECK_DEADLOCK FALSE
