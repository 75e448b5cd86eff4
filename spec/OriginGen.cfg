SPECIFICATION OSpec
CONSTANTS Peers = {"tcp:h:1", "10.0.0.1"}
          Binds = {"0.0.0.0"}
          Depth = 12
CHECK_DEADLOCK FALSE
