SPECIFICATION TraceSpec
CONSTANTS StartOf <- XStart
          Allowed <- XmAllowed
          Apply <- XmApply
CHECK_DEADLOCK FALSE
