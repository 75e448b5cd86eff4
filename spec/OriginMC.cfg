SPECIFICATION OSpec
CONSTANTS Peers = {"10.0.0.1"}
          Binds = {"0.0.0.0"}
          Depth = 6
PROPERTY PeerKept
CHECK_DEADLOCK FALSE
