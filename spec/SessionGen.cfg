SPECIFICATION GSpec
CONSTANTS Slots = {1, 2, 3, 4}
          Depth = 30
CHECK_DEADLOCK FALSE
