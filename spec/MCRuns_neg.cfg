SPECIFICATION Spec
CONSTANTS Depth = 2
          Gen = FALSE
          Leak = TRUE
CHECK_DEADLOCK FALSE
PROPERTIES Reproducible
