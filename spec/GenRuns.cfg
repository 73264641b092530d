SPECIFICATION Spec
CONSTANTS Depth = 2
          Gen = TRUE
          Leak = FALSE
CHECK_DEADLOCK FALSE
