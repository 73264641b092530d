SPECIFICATION Spec
CONSTANTS Depth = 4
          Gen = TRUE
INVARIANTS NeverInvalid
CHECK_DEADLOCK FALSE
