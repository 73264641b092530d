SPECIFICATION Spec
CONSTANTS Depth = 5
          Break = ""
          Span = 3
INVARIANTS Aligned Together Paired
PROPERTIES Growing Others
CHECK_DEADLOCK FALSE
