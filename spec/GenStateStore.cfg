SPECIFICATION Spec
CONSTANTS Depth = 3
          Gen = TRUE
INVARIANTS Lengths
CHECK_DEADLOCK FALSE
