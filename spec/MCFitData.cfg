SPECIFICATION Spec
CONSTANTS Depth = 4
          Break = ""
          Span = 1
INVARIANTS Aligned Together Paired
PROPERTIES Growing Others
CHECK_DEADLOCK FALSE
