SPECIFICATION Spec
CONSTANTS Depth = 3
          Gen = FALSE
          Leak = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Owner Apart
PROPERTIES Reproducible
