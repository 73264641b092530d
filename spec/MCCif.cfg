SPECIFICATION Spec
CONSTANTS N = 4
          Depth = 2
          Break = ""
INVARIANTS OneEach Covered Symmetric Moved Kept Counted
CHECK_DEADLOCK FALSE
