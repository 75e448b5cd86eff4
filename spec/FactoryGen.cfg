SPECIFICATION GSpec
CONSTANTS Names = {"a", "exedl", "ab", "plug", "bad", "A"}
          Creators = {"c1", "c2", "c3"}
          DlNames = {"exedl", "plug", "bad", "nosuch", "a"}
          Depth = 25
CHECK_DEADLOCK FALSE
