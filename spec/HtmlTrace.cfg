SPECIFICATION TraceSpec
CONSTANTS StartOf <- HStart
          Allowed <- HtmlAllowed
          Apply <- HtmlApply
CHECK_DEADLOCK FALSE
