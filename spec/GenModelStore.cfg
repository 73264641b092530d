SPECIFICATION Spec
CONSTANTS Depth = 3
          Gen = TRUE
          Break = ""
INVARIANTS Bound
CHECK_DEADLOCK FALSE
