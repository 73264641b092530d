SPECIFICATION Spec
CONSTANTS Depth = 3
          Gen = TRUE
          Leak = FALSE
CHECK_DEADLOCK FALSE
