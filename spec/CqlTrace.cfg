SPECIFICATION TraceSpec
CONSTANTS StartOf <- TStart
          Allowed <- KAllowed
          Apply <- KApply
CHECK_DEADLOCK FALSE
