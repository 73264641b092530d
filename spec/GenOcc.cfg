SPECIFICATION Spec
CONSTANTS Depth = 3
          Gen = TRUE
          Break = ""
CHECK_DEADLOCK FALSE
