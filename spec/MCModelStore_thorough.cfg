SPECIFICATION Spec
CONSTANTS Depth = 4
          Gen = FALSE
          Break = ""
INVARIANTS Bound
PROPERTIES Faithful Kept Typed
CHECK_DEADLOCK FALSE
