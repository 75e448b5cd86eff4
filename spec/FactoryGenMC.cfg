SPECIFICATION GSpec
CONSTANTS Names = {"a", "exedl", "ab"}
          Creators = {"c1", "c2"}
          DlNames = {"exedl", "plug"}
          Depth = 4
PROPERTY Stable
CHECK_DEADLOCK FALSE
