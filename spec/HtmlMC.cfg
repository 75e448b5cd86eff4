SPECIFICATION HSpec
CONSTANTS Pieces = {"lt", "gt", "sl", "eq", "bang", "dash", "dq", "sp", "a", "script", "/script", "cmt"}
          MaxLen = 4
INVARIANTS AlwaysLossless AlwaysPlain
CHECK_DEADLOCK FALSE
