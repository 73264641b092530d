SPECIFICATION Spec
CONSTANTS Depth = 5
          Break = "half"
          Span = 1
INVARIANTS Aligned Together Paired
PROPERTIES Growing Others
CHECK_DEADLOCK FALSE
