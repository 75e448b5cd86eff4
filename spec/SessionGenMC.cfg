SPECIFICATION GSpec
CONSTANTS Slots = {1, 2}
          Depth = 4
PROPERTY CloseSticks
CHECK_DEADLOCK FALSE
