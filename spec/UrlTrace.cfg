SPECIFICATION TraceSpec
CONSTANTS StartOf <- UStart
          Allowed <- UrlAllowed
          Apply <- UrlApply
CHECK_DEADLOCK FALSE
