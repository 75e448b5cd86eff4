SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- ZcAllowed
          Apply <- ZcApply
CHECK_DEADLOCK FALSE
