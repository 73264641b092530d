SPECIFICATION Spec
CONSTANTS Depth = 4
          Gen = TRUE
INVARIANTS Lengths
CHECK_DEADLOCK FALSE
