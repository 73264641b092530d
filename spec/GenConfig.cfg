SPECIFICATION Spec
CONSTANTS Depth = 3
          Gen = TRUE
INVARIANTS NeverInvalid
CHECK_DEADLOCK FALSE
