SPECIFICATION Spec
CONSTANTS N = 2
          Depth = 3
          Break = ""
INVARIANTS OneEach Covered Symmetric Moved Kept Counted
CHECK_DEADLOCK FALSE
