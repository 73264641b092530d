SPECIFICATION Spec
CONSTANTS Depth = 4
          Gen = TRUE
          Break = ""
INVARIANTS Bound
CHECK_DEADLOCK FALSE
