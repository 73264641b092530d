SPECIFICATION Spec
CONSTANTS Depth = 4
          Gen = TRUE
          Break = ""
CHECK_DEADLOCK FALSE
