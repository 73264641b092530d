SPECIFICATION Spec
CONSTANTS Depth = 3
          Gen = FALSE
          Break = "params"
INVARIANTS Bound
PROPERTIES Faithful Kept Typed
CHECK_DEADLOCK FALSE
